//! C01 — a value or an error, for every input, from every entry point.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::exer;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::*;
use std::sync::Arc;

/// Parse and then do everything one can do with the result. The engine turns a
/// panic, an overflow, an abort or a hang into a violation.
pub fn total(data: &Data, apis: &[Api], srcs: &[Src], st: &mut Stats) {
    let mut p = MediaParser::new();
    for &a in apis {
        for &s in srcs {
            match parse_raw(&mut p, data, s, a) {
                Raw::Exif(it) => {
                    let (n, h) = exer::iter(it);
                    st.note(n > 0, h);
                }
                Raw::Meta(m) => {
                    let mut h = m.format.as_ref().map(exer::format).unwrap_or(0);
                    let e: ImageMetadata<Exif> = m.into();
                    if let Some(e) = &e.exif {
                        h ^= exer::exif(e);
                    }
                    st.note(e.exif.is_some() || e.format.is_some(), h);
                }
                Raw::Track(t) => st.note(true, exer::track(&t)),
                Raw::Err(e) => st.note(false, fp(&e)),
            }
        }
    }
}
/// error values must be presentable too
fn errors(data: &Data, st: &mut Stats) {
    let mut p = MediaParser::new();
    let d = data.as_ref();
    if let Err(e) = MediaSource::from_memory(d.clone()).and_then(|m| p.parse_exif(m)) {
        st.note(false, exer::error(&e));
    }
    if let Err(e) = MediaSource::from_memory(d.clone()).and_then(|m| p.parse_track(m)) {
        st.note(false, exer::error(&e));
    }
    if let Err(e) = MediaSource::from_memory(d.clone()).and_then(|m| p.parse_image_metadata(m)) {
        st.note(false, exer::error(&e));
    }
}
fn natural(image: bool) -> &'static [Api] {
    if image {
        &[Api::Exif, Api::Meta]
    } else {
        &[Api::Track]
    }
}
fn run(data: Vec<u8>, image: bool, srcs: &[Src]) -> CaseResult {
    let mut st = Stats::default();
    total(&Arc::new(data), natural(image), srcs, &mut st);
    Ok(st)
}

/// Small seeds, each with the list of positions worth damaging (runs of filler left out).
fn targets() -> Arc<Vec<(Seed, Vec<usize>)>> {
    let mut out = vec![];
    for s in small() {
        let d = &s.data;
        let pos: Vec<usize> = (0..d.len())
            .filter(|&p| {
                // inside the filler pattern nothing is interpreted
                let fill = |q: usize| q < d.len() && (0x40..0x57).contains(&d[q]);
                !(p >= 8 && (p - 8..=p + 8).all(fill))
            })
            .collect();
        out.push((s, pos));
    }
    // a motion photo is also asked for its track
    Arc::new(out)
}

/// (seed, position) pairs x `vals` edits
fn edits(
    name: &'static str,
    rule: String,
    stride: usize,
    nv: u64,
    edit: impl Fn(&[u8], usize, u64) -> Option<Vec<u8>> + Sync + Send + Copy + 'static,
    srcs: &'static [Src],
) -> Space {
    let ts = targets();
    let mut pts = vec![];
    for (k, t) in ts.iter().enumerate() {
        for p in t.1.iter().step_by(stride) {
            pts.push((k, *p));
        }
    }
    let pts = Arc::new(pts);
    let (t2, p2) = (ts.clone(), pts.clone());
    Space::new(
        name,
        rule,
        pts.len() as u64 * nv,
        move |i| {
            let mut m = Mix(i);
            let v = m.d(nv) as u64;
            let (k, p) = *m.of(&pts);
            let s = &ts[k].0;
            let Some(d) = edit(&s.data, p, v) else {
                return Ok(Stats::default());
            };
            let mut st = Stats::default();
            let d = Arc::new(d);
            total(&d, natural(s.image), srcs, &mut st);
            if s.name == "motion" {
                total(&d, &[Api::Track], srcs, &mut st);
            }
            Ok(st)
        },
        move |i| {
            let mut m = Mix(i);
            let v = m.d(nv);
            let (k, p) = *m.of(&p2);
            format!("{} at {p}: edit {v}", t2[k].0.name)
        },
    )
}

const W32: [u32; 18] = [
    0, 1, 2, 3, 7, 8, 9, 12, 16, 0x7f, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_fffb, 0xffff_fffe, 0xffff_ffff,
];
/// boundary values of a 32-bit field at `p`, including those related to the file's length
fn put32(d: &[u8], p: usize, v: u64) -> Option<Vec<u8>> {
    if p + 4 > d.len() {
        return None;
    }
    let le = v % 2 == 1;
    let k = (v / 2) as usize;
    let n = d.len() as u32;
    let x = match k {
        k if k < W32.len() => W32[k],
        18 => n,
        19 => n - 1,
        20 => n - p as u32,
        21 => n - p as u32 + 1,
        22 => (n - p as u32).saturating_sub(1),
        23 => p as u32,
        24 => u32::MAX - p as u32,
        _ => u32::MAX - p as u32 - 4,
    };
    let mut o = d.to_vec();
    o[p..p + 4].copy_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() });
    (o != d).then_some(o)
}
fn put64(d: &[u8], p: usize, v: u64) -> Option<Vec<u8>> {
    if p + 8 > d.len() {
        return None;
    }
    let x = [
        0u64,
        1,
        15,
        16,
        0x7fff_ffff_ffff_ffff,
        0x8000_0000_0000_0000,
        u64::MAX,
        u64::MAX - 7,
        u64::MAX - 15,
        0x1_0000_0000,
        u64::MAX - p as u64,
        0x01ff_ffff_ffff_ffff,
        // 32-bit "64-bit size follows" marker and the box type kept, large size behind it
        d.len() as u64 - p as u64,
        1 << 62,
    ][v as usize];
    let mut o = d.to_vec();
    o[p..p + 8].copy_from_slice(&x.to_be_bytes());
    (o != d).then_some(o)
}
fn put16(d: &[u8], p: usize, v: u64) -> Option<Vec<u8>> {
    if p + 2 > d.len() {
        return None;
    }
    let le = v % 2 == 1;
    let x = [0u16, 1, 2, 3, 8, 13, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x00ff, 0xff00][(v / 2) as usize];
    let mut o = d.to_vec();
    o[p..p + 2].copy_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() });
    (o != d).then_some(o)
}
/// delete / insert / repeat / swap
fn splice(d: &[u8], p: usize, v: u64) -> Option<Vec<u8>> {
    let ks = [1usize, 2, 3, 4, 8, 12, 16, 64];
    let k = ks[(v / 4) as usize];
    let mut o = d.to_vec();
    match v % 4 {
        0 => {
            let e = (p + k).min(o.len());
            o.drain(p..e);
        }
        1 => {
            for _ in 0..k {
                o.insert(p, 0);
            }
        }
        2 => {
            let e = (p + k).min(o.len());
            let c: Vec<u8> = o[p..e].to_vec();
            for (i, b) in c.into_iter().enumerate() {
                o.insert(p + i, b);
            }
        }
        _ => {
            let e = (p + k).min(o.len());
            for b in &mut o[p..e] {
                *b = 0xff;
            }
        }
    }
    Some(o)
}

/// Two bytes of a minimal file replaced.
fn pairs(t: Tier) -> Space {
    let tiny: Vec<(&str, Vec<u8>, bool)> = vec![
        ("tiff", tiff(&dir(vec![en(0x0110, Val::s("Model 1")), sub(EXIF_PTR, dir(vec![en(0x9003, Val::s("2020:01:02 03:04:05"))]))]), &Lay::new(false)).bytes, true),
        ("gps", tiff(&dir(vec![sub(GPS_PTR, dir(vec![en(1, Val::s("N")), en(2, Val::URat(vec![(1, 1), (2, 1), (3, 1)]))]))]), &Lay::new(true)).bytes, true),
        ("png", png(&[text_chunk("k", b"v")]), true),
        ("jpeg", jpeg(&[jseg(0xe1, &exif_payload(b"II*\0\x08\0\0\0\x01\0\x12\x01\x03\0\x01\0\0\0\x06\0\0\0\0\0\0\0"))], &[]), true),
        ("mov", cat(&[ftyp(b"qt  ", &[]), bx(b"moov", &cat(&[mvhd(0, 1, 1, 1)]))]), false),
        ("iloc", Heif { before: 0, lead: 0, tail: 0, ..Heif::new() }.build_item(&[0, 0, 0, 0, b'I', b'I', b'*', 0, 8, 0, 0, 0, 0, 0, 0, 0]), true),
        ("mkv", mkv("webm", &[mk_info(Some(1.0), Some(1_000_000), None), mk_tracks(&[mk_video(1, 1)])]), false),
        ("meta", cat(&[ftyp(b"qt  ", &[]), bx(b"moov", &cat(&[qt_meta(&[("com.apple.quicktime.make", 1, b"A".to_vec())], &[0]), udta(&[xyz("+1+2/")], true)]))]), false),
    ];
    let vals: &'static [u8] = t.pick(&[0x00u8, 0xff][..], &[0x00, 0x01, 0x7f, 0x80, 0xff, 0x10][..]);
    let tiny = Arc::new(tiny);
    let mut offs = vec![];
    let mut n = 0u64;
    let step = t.pick(2usize, 1);
    for x in tiny.iter() {
        offs.push(n);
        let l = (x.1.len() / step) as u64;
        n += l * l;
    }
    let nv = vals.len() as u64;
    let t2 = tiny.clone();
    let o2 = offs.clone();
    let locate = move |offs: &[u64], tiny: &[(&str, Vec<u8>, bool)], i: u64| -> (usize, usize, usize, u8, u8) {
        let mut m = Mix(i);
        let (a, b) = (vals[m.d(nv)], vals[m.d(nv)]);
        let r = m.0;
        let k = offs.iter().rposition(|o| *o <= r).unwrap();
        let l = (tiny[k].1.len() / step) as u64;
        let q = r - offs[k];
        ((k), (q % l) as usize * step, (q / l) as usize * step, a, b)
    };
    Space::new(
        "pairs",
        format!("8 minimal files, every pair of byte positions (stride {step}) replaced by every pair of {nv} boundary bytes"),
        n * nv * nv,
        move |i| {
            let (k, p, q, a, b) = locate(&offs, &tiny, i);
            if q <= p {
                return Ok(Stats::default());
            }
            let mut d = tiny[k].1.clone();
            d[p] = a;
            d[q] = b;
            run(d, tiny[k].2, &[Src::Mem])
        },
        move |i| {
            let (k, p, q, a, b) = locate(&o2, &t2, i);
            format!("{} bytes {p} := {a:#x}, {q} := {b:#x}", t2[k].0)
        },
    )
}

/// Every pointer graph over `nd` directories.
fn graphs(t: Tier) -> Space {
    let nd = t.pick(2usize, 3);
    // targets: none, each directory, inside the first directory, header, beyond the end
    let nt = t.pick(nd as u64 + 4, nd as u64 + 3);
    let slots = nd * 3;
    let n = nt.pow(slots as u32) * 2;
    // beyond ~2M cases: restrict the last directory's pointers
    let build = move |i: u64| -> Vec<u8> {
        let mut m = Mix(i);
        let be = m.b();
        let sz = 2 + 4 * 12 + 4;
        let at = |k: usize| (8 + k * sz) as u32;
        let end = at(nd);
        let mut o = vec![0u8; end as usize + 40];
        let p16 = |o: &mut [u8], p: usize, x: u16| o[p..p + 2].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
        let p32 = |o: &mut [u8], p: usize, x: u32| o[p..p + 4].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
        o[..2].copy_from_slice(if be { b"MM" } else { b"II" });
        p16(&mut o, 2, 42);
        p32(&mut o, 4, 8);
        for k in 0..nd {
            let b = at(k) as usize;
            p16(&mut o, b, 4);
            for (j, tag) in [0x0110u16, EXIF_PTR, GPS_PTR, 0x9003].iter().enumerate() {
                let e = b + 2 + 12 * j;
                p16(&mut o, e, *tag);
                p16(&mut o, e + 2, [3, 4, 4, 2][j]);
                p32(&mut o, e + 4, [1, 1, 1, 20][j]);
                p32(&mut o, e + 8, [7, 0, 0, end][j]);
            }
            for j in 0..3 {
                let c = m.d(nt);
                let tgt = match c {
                    0 => 0,
                    c if c <= nd => at(c - 1),
                    c if c == nd + 1 => at(0) + 12,
                    c if c == nd + 2 => 4,
                    _ => end + 38,
                };
                let p = match j {
                    0 => b + 2 + 12 + 8,
                    1 => b + 2 + 24 + 8,
                    _ => b + 2 + 48,
                };
                p32(&mut o, p, tgt);
            }
        }
        o[end as usize..end as usize + 20].copy_from_slice(b"2020:01:02 03:04:05\0");
        o
    };
    Space::new(
        "graphs",
        format!("{nd} directories, each with an Exif, a GPS and a next pointer, every pointer to every directory, to none, into a directory, into the header (quick also: past the end), both byte orders"),
        n,
        move |i| {
            let d = Arc::new(build(i));
            let mut st = Stats::default();
            // iteration has to end within the number of entries an acyclic walk can yield
            match parse(&d, Src::Mem, Api::Exif) {
                Out::Exif(e) => {
                    if e.entries.len() > 4096 {
                        return viol(format!("graphs:{i}"), format!("{} entries out of {} directories", e.entries.len(), nd));
                    }
                    st.note(!e.entries.is_empty(), e.entries.len() as u64);
                }
                o => st.note(false, o.fp()),
            }
            if i % 16 == 0 || nd == 2 {
                total(&d, &[Api::Exif], &[Src::Mem], &mut st);
            }
            Ok(st)
        },
        move |i| format!("pointer graph {i}: {:02x?}", build(i)),
    )
}

/// signature x short tails
fn heads(t: Tier) -> Space {
    let mut sigs: Vec<Vec<u8>> = vec![
        vec![],
        b"II*\0".to_vec(),
        b"MM\0*".to_vec(),
        b"II*\0\x08\0\0\0".to_vec(),
        b"MM\0*\0\0\0\x08\0\x01".to_vec(),
        b"\xff\xd8\xff".to_vec(),
        b"\xff\xd8\xff\xe1".to_vec(),
        b"\xff\xd8\xff\xe1\0\x08Exif\0\0".to_vec(),
        PNG_SIG.to_vec(),
        cat(&[PNG_SIG.to_vec(), ihdr()]),
        b"FUJIFILMCCD-RAW ".to_vec(),
        b"FUJIFILMCCD-RAW 0201FF383501X-T40000000000000000000000000000".to_vec(),
        ftyp(b"heic", &[b"mif1"]),
        ftyp(b"crx ", &[]),
        ftyp(b"qt  ", &[]),
        ftyp(b"mp42", &[]),
        b"\0\0\0\x08wide".to_vec(),
        ebml_head("webm"),
        b"\x1a\x45\xdf\xa3".to_vec(),
    ];
    for x in [b"moov" as &[u8; 4], b"meta", b"uuid"] {
        sigs.push(cat(&[ftyp(b"qt  ", &[]), x.to_vec()]));
    }
    let sigs = Arc::new(sigs);
    let pads = [0usize, 130];
    let tails = t.pick(256u64, 65536);
    let s2 = sigs.clone();
    let mk = move |sigs: &Vec<Vec<u8>>, i: u64| {
        let mut m = Mix(i);
        let s = m.of(sigs);
        let pad = *m.of(&pads);
        let fillb = *m.of(&[0u8, 0xff, 0x41]);
        let tail = m.0;
        let mut d = s.clone();
        if tails == 256 {
            d.push(tail as u8);
            if pad > 0 {
                d.push(tail as u8);
            }
        } else {
            d.push(tail as u8);
            d.push((tail >> 8) as u8);
        }
        d.extend(std::iter::repeat(fillb).take(pad));
        d
    };
    Space::new(
        "heads",
        format!("22 signatures (and none) followed by every tail of {} byte(s), bare or padded with 130 equal bytes of 3 kinds, all entry points and sources", t.pick(1, 2)),
        sigs.len() as u64 * 2 * 3 * tails,
        move |i| {
            let d = Arc::new(mk(&sigs, i));
            let mut st = Stats::default();
            total(&d, &APIS, t.pick(&SRCS[..], &[Src::Mem, Src::Seek, Src::ANoSeek][..]), &mut st);
            if t == Tier::Quick {
                errors(&d, &mut st);
            }
            Ok(st)
        },
        move |i| format!("{:02x?}", mk(&s2, i)),
    )
}

/// Every prefix of every seed through every entry point and source.
fn prefixes(t: Tier) -> Space {
    let ts = Arc::new(small());
    let mut pts = vec![];
    for (k, s) in ts.iter().enumerate() {
        for c in (0..=s.data.len()).step_by(t.pick(3, 1)) {
            pts.push((k, c));
        }
    }
    let pts = Arc::new(pts);
    let (t2, p2) = (ts.clone(), pts.clone());
    Space::new(
        "prefixes",
        "every prefix of every small seed (every third length quick), every entry point, 4 sources, error values presented",
        pts.len() as u64,
        move |i| {
            let (k, c) = pts[i as usize];
            let d = Arc::new(ts[k].data[..c].to_vec());
            let mut st = Stats::default();
            total(&d, &APIS, &[Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek], &mut st);
            errors(&d, &mut st);
            Ok(st)
        },
        move |i| {
            let (k, c) = p2[i as usize];
            format!("{} cut at {c}", t2[k].name)
        },
    )
}

/// Sequences over a container's token alphabet.
fn tokens(t: Tier) -> Space {
    let tf = tiff(&tiny_dir(), &Lay::new(false)).bytes;
    let u = |n: u32| n.to_be_bytes().to_vec();
    let jpeg_t: Vec<Vec<u8>> = vec![
        vec![0xff, 0xd8],
        vec![0xff, 0xd9],
        vec![0xff, 0xff],
        vec![0x00],
        vec![0xff, 0xe1, 0, 0],
        vec![0xff, 0xe1, 0, 1],
        vec![0xff, 0xe1, 0, 2],
        vec![0xff, 0xe1, 0, 8, b'E', b'x', b'i', b'f', 0, 0],
        vec![0xff, 0xe1, 0xff, 0xff],
        vec![0xff, 0xd0],
        vec![0xff, 0x01],
        jseg(0xe1, &exif_payload(&tf)),
        motion_xmp(7),
        motion_xmp(0),
        xmp_seg("GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"18446744073709551615\">"),
        jseg(0xda, &[1]),
    ];
    let png_t: Vec<Vec<u8>> = vec![
        chunk(b"IDAT", &[1, 2, 3]),
        chunk(b"eXIf", &tf),
        chunk(b"eXIf", &[]),
        text_chunk("k", b"v"),
        chunk(b"tEXt", &[]),
        chunk(b"tEXt", b"\0"),
        text_chunk("Raw profile type APP1", b"\nAPP1\n 99999999999999999999\n45"),
        text_chunk("Raw profile type exif", b"\nexif\n     8\n4949"),
        text_chunk("Raw profile type exif", b"exif"),
        cat(&[u(0xffff_ffff), b"tEXt".to_vec()]),
        cat(&[u(0x7fff_ffff), b"eXIf".to_vec()]),
        cat(&[u(0x8000_0000), b"IDAT".to_vec()]),
        cat(&[u(0), b"\0\0\0\0".to_vec(), u(0)]),
        chunk(b"IEND", &[]),
        vec![0],
    ];
    let box_t: Vec<Vec<u8>> = vec![
        bx(b"free", &[0; 8]),
        u(0),
        cat(&[u(1), b"mdat".to_vec(), vec![0xff; 8]]),
        cat(&[u(1), b"moov".to_vec(), vec![0; 8]]),
        cat(&[u(1), b"meta".to_vec(), vec![0, 0, 0, 0, 0, 0, 0, 15]]),
        cat(&[u(7), b"moov".to_vec()]),
        cat(&[u(0), b"moov".to_vec()]),
        cat(&[u(0xffff_ffff), b"meta".to_vec()]),
        bx(b"moov", &[]),
        bx(b"moov", &mvhd(0, 0, 0, 0)),
        bx(b"moov", &mvhd(1, u64::MAX - 1, 0, u64::MAX)),
        bx(b"moov", &trak(b"vide", tkhd(0, 1, 2), 0)),
        bx(b"moov", &bx(b"uuid", &CANON)),
        bx(b"moov", &bx(b"uuid", &[0x85])),
        bx(b"moov", &udta(&[bx(&[0xa9, b'x', b'y', b'z'], &[]), bx(b"auth", &[0, 0, 0, 0])], true)),
        bx(b"meta", &[]),
        fbx(b"meta", 0, 0, &bx(b"iloc", &[])),
        fbx(b"meta", 0, 0, &cat(&[fbx(b"iinf", 0, 0, &[0xff, 0xff]), fbx(b"iloc", 1, 0, &[0x44, 0, 0xff, 0xff])])),
        bx(b"mdat", &[]),
    ];
    let ebml_t: Vec<Vec<u8>> = vec![
        vec![0],
        vec![0xff],
        vec![0xec, 0x80],
        vec![0xec, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        vec![0xec, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe],
        cat(&[eid(0x18538067), vec![0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]]),
        cat(&[eid(0x18538067), vec![0xff]]),
        cat(&[eid(0x18538067), vec![0x80]]),
        cat(&[eid(0x18538067), vec![0x90]]),
        mk_info(Some(f64::NAN), Some(0), Some(i64::MIN)),
        mk_info(Some(f64::INFINITY), Some(0xffff_ffff), Some(i64::MAX)),
        mk_info(Some(-1.0), None, None),
        el(0x1549A966, &[0x44, 0x89, 0x80]),
        el(0x1549A966, &[0x44, 0x89, 0x83, 1, 2, 3]),
        el(0x1549A966, &[0x44, 0x61, 0x81, 1]),
        mk_tracks(&[mk_video(0xffff, 0)]),
        mk_tracks(&[el(0xAE, &el(0xE0, &[0xb0, 0x89, 1, 2, 3, 4, 5, 6, 7, 8, 9]))]),
        seek_head(&[(0x1549A966, u64::MAX), (0x1654AE6B, 0)]),
        seek_head(&[(0x1654AE6B, 1)]),
        cluster(4),
        vec![0x1f, 0x43, 0xb6, 0x75, 0x01],
    ];
    let fams: Arc<Vec<(Vec<u8>, Vec<Vec<u8>>, bool)>> = Arc::new(vec![
        (vec![0xff, 0xd8, 0xff, 0xe0, 0, 2], jpeg_t, true),
        (PNG_SIG.to_vec(), png_t, true),
        (ftyp(b"heic", &[]), box_t.clone(), true),
        (ftyp(b"crx ", &[]), box_t.clone(), true),
        (ftyp(b"qt  ", &[]), box_t, false),
        (ebml_head("webm"), ebml_t.clone(), false),
        (cat(&[ebml_head("matroska"), eid(0x18538067), vec![0x01, 0, 0, 0, 0, 0, 0, 60]]), ebml_t, false),
    ]);
    let maxlen = t.pick(3u32, 4);
    let mut offs = vec![];
    let mut n = 0u64;
    for f in fams.iter() {
        offs.push(n);
        n += (0..=maxlen).map(|l| (f.1.len() as u64).pow(l)).sum::<u64>();
    }
    let f2 = fams.clone();
    let o2 = offs.clone();
    fn mk(fams: &[(Vec<u8>, Vec<Vec<u8>>, bool)], offs: &[u64], i: u64) -> (Vec<u8>, bool) {
        let k = offs.iter().rposition(|o| *o <= i).unwrap();
        let mut r = i - offs[k];
        let (h, al, im) = &fams[k];
        let b = al.len() as u64;
        let mut l = 0;
        while r >= b.pow(l) {
            r -= b.pow(l);
            l += 1;
        }
        let mut d = h.clone();
        for _ in 0..l {
            d.extend_from_slice(&al[(r % b) as usize]);
            r /= b;
        }
        (d, *im)
    }
    Space::new(
        "tokens",
        format!("7 container heads followed by every sequence of up to {maxlen} tokens of the container's alphabet (15..21 well-formed, degenerate and lying segments, chunks, boxes or elements), from memory and streamed"),
        n,
        move |i| {
            let (mut d, im) = mk(&fams, &offs, i);
            let mut st = Stats::default();
            total(&Arc::new(d.clone()), natural(im), &[Src::Mem], &mut st);
            if im && d[0] == 0xff {
                total(&Arc::new(d.clone()), &[Api::Track], &[Src::Mem, Src::Seek], &mut st);
            }
            // long enough for the streaming sources to accept it
            d.extend_from_slice(&[0; 140]);
            total(&Arc::new(d), natural(im), &[Src::Seek, Src::ANoSeek], &mut st);
            Ok(st)
        },
        move |i| trunc(&format!("{:02x?}", mk(&f2, &o2, i).0), 600),
    )
}

/// All strings up to a length for every text the library interprets.
fn texts(t: Tier) -> Vec<Space> {
    fn word(al: &[&str], mut i: u64) -> String {
        let b = al.len() as u64;
        let mut l = 0;
        while i >= b.pow(l) {
            i -= b.pow(l);
            l += 1;
        }
        let mut s = String::new();
        for _ in 0..l {
            s.push_str(al[(i % b) as usize]);
            i /= b;
        }
        s
    }
    fn count(b: usize, l: u32) -> u64 {
        (0..=l).map(|l| (b as u64).pow(l)).sum()
    }
    const ISO: [&str; 11] = ["+", "-", ".", "0", "90", "181.5", "N", "/", "°", "CRS", "99999999999999999999"];
    const DT: [&str; 9] = ["2", ":", " ", "0000", "12", "-", "+", "\u{e9}", "99"];
    const TZ: [&str; 9] = ["+", "-", ":", "0", "9", "24", "Z", "\u{e9}", " "];
    let il = t.pick(4, 6);
    let dl = t.pick(4, 6);
    let tl = t.pick(4, 6);
    let udta_file = |s: &str| {
        cat(&[
            ftyp(b"qt  ", &[]),
            bx(
                b"moov",
                &cat(&[
                    qt_meta(&[("com.apple.quicktime.location.ISO6709", 1, s.as_bytes().to_vec()), ("com.apple.quicktime.creationdate", 1, s.as_bytes().to_vec())], &[0, 1]),
                    udta(&[xyz(s)], false),
                ]),
            ),
            bx(b"mdat", &[0; 100]),
        ])
    };
    vec![
        Space::new(
            "iso6709",
            format!("every word of up to {il} tokens over {ISO:?} as ISO 6709 text (and tag name), directly and inside a movie"),
            count(ISO.len(), il),
            move |i| {
                let s = word(&ISO, i);
                let mut st = Stats::default();
                match s.parse::<GPSInfo>() {
                    Ok(g) => st.note(true, exer::gps(&g)),
                    Err(e) => st.note(false, fp(&e.to_string())),
                }
                let _ = s.parse::<ExifTag>().is_ok() || s.parse::<TrackInfoTag>().is_ok();
                if i < 20_000 {
                    total(&Arc::new(udta_file(&s)), &[Api::Track], &[Src::Mem], &mut st);
                }
                Ok(st)
            },
            |i| format!("{:?}", word(&ISO, i)),
        ),
        Space::new(
            "date-text",
            format!("every word of up to {dl} tokens over {DT:?} as date-time text (tag 0x0132/0x9003/0x9004) with and without an offset text"),
            count(DT.len(), dl) * 2,
            move |i| {
                let s = word(&DT, i / 2);
                let mut e = vec![en(0x9003, Val::s(&s)), en(0x9004, Val::Ascii(s.as_bytes().to_vec()))];
                if i % 2 == 1 {
                    e.push(en(0x9011, Val::s("+08:00")));
                }
                let d = dir(vec![en(0x0132, Val::s(&s)), sub(EXIF_PTR, dir(e))]);
                run(tiff(&d, &Lay::new(false)).bytes, true, &[Src::Mem])
            },
            |i| format!("{:?} offset {}", word(&DT, i / 2), i % 2),
        ),
        Space::new(
            "offset-text",
            format!("every word of up to {tl} tokens over {TZ:?} as offset text next to extreme and ordinary date-times"),
            count(TZ.len(), tl),
            move |i| {
                let s = word(&TZ, i);
                let d = dir(vec![
                    en(0x0132, Val::s("9999:12:31 23:59:60")),
                    sub(EXIF_PTR, dir(vec![en(0x9003, Val::s("0000:01:01 00:00:00")), en(0x9011, Val::s(&s)), en(0x9004, Val::s("2020:02:29 12:00:00"))])),
                ]);
                run(tiff(&d, &Lay::new(true)).bytes, true, &[Src::Mem])
            },
            |i| format!("{:?}", word(&TZ, i)),
        ),
    ]
}

/// Values the API can be handed directly.
fn api_values() -> Space {
    use chrono::{DateTime, FixedOffset, NaiveDate, NaiveDateTime};
    let ndt: Vec<NaiveDateTime> = vec![
        // date-times within a day of chrono's own limits have no local form with an offset
        NaiveDate::from_ymd_opt(-262_142, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(),
        NaiveDate::from_ymd_opt(262_141, 12, 31).unwrap().and_hms_opt(23, 59, 59).unwrap(),
        NaiveDate::from_ymd_opt(0, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(),
        NaiveDate::from_ymd_opt(-1, 12, 31).unwrap().and_hms_opt(23, 59, 59).unwrap(),
        NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(),
        NaiveDate::from_ymd_opt(9999, 12, 31).unwrap().and_hms_opt(23, 59, 59).unwrap(),
        NaiveDate::from_ymd_opt(10000, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(),
    ];
    let offs: Vec<Option<FixedOffset>> = [None, Some(0), Some(86_399), Some(-86_399), Some(1), Some(-3600)]
        .iter()
        .map(|o| o.map(|s: i32| FixedOffset::east_opt(s).unwrap()))
        .collect();
    let fs: Vec<f64> = vec![
        0.0, -0.0, 1.0, -1.0, 0.5, 179.999999999, 180.0, -180.0, 180.0000001, 89.99999999999, 59.9999999999 / 60.0, f64::NAN, f64::INFINITY,
        f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 1e-300, 0.99999999999, 12.9999999999, 5e-324,
    ];
    let rats: Vec<(u32, u32)> = {
        let xs = [0u32, 1, 59, 60, 90, 180, 0x7fff_ffff, 0x8000_0000, u32::MAX];
        xs.iter().flat_map(|a| xs.iter().map(move |b| (*a, *b))).collect()
    };
    let nd = (ndt.len() * offs.len()) as u64;
    let nf = fs.len() as u64;
    let nr = (rats.len() * rats.len()) as u64;
    Space::new(
        "api-values",
        "constructors and conversions callers reach directly: extreme date-times x offsets, extreme degrees, every pair of 81 rationals as position and altitude, every accessor and text form of them",
        nd + nf + nr,
        move |i| {
            let mut st = Stats::default();
            if i < nd {
                let mut m = Mix(i);
                let (n, o) = (*m.of(&ndt), *m.of(&offs));
                let v: EntryValue = (n, o).into();
                st.note(true, exer::value(&v));
                st.note(true, exer::value(&EntryValue::NaiveDateTime(n)));
                st.note(true, exer::datetime(ExifDateTime::Naive(n)));
                if let Some(o) = o {
                    let d = DateTime::<FixedOffset>::from_naive_utc_and_offset(n, o);
                    st.note(true, exer::value(&EntryValue::DateTime(d)));
                    st.note(true, exer::value(&EntryValue::from(d)));
                }
            } else if i < nd + nf {
                let f = fs[(i - nd) as usize];
                match LatLng::try_from_decimal_degrees(f) {
                    Ok(l) => st.note(true, fp(&format!("{l:?} {:?}", l.to_decimal_degrees()))),
                    Err(e) => st.note(false, fp(&e.to_string())),
                }
                st.note(true, exer::value(&EntryValue::F64(f)));
                st.note(true, exer::value(&EntryValue::F32(f as f32)));
            } else {
                let mut m = Mix(i - nd - nf);
                let (a, b) = (*m.of(&rats), *m.of(&rats));
                let (ra, rb) = (URational::new(a.0, a.1), URational::new(b.0, b.1));
                for alt in [Altitude::Unknown, Altitude::AboveSeaLevel(rb), Altitude::BelowSeaLevel(rb)] {
                    let g = GPSInfo {
                        latitude_ref: LatRef::South,
                        latitude: LatLng::new(ra, rb, ra),
                        longitude_ref: LonRef::West,
                        longitude: LatLng::new(rb, rb, ra),
                        altitude: alt,
                        speed: Some(Speed { unit: SpeedUnit::Knots, value: ra }),
                    };
                    st.note(true, exer::gps(&g));
                }
                let (ia, ib) = (IRational::new(a.0 as i32, a.1 as i32), IRational::new(b.0 as i32, b.1 as i32));
                for v in [
                    EntryValue::URational(ra),
                    EntryValue::IRational(ia),
                    EntryValue::URationalArray(vec![ra, rb, ra]),
                    EntryValue::IRationalArray(vec![ia, ib, ia]),
                    EntryValue::U64(a.0 as u64 * b.0 as u64),
                    EntryValue::I64(i64::MIN + a.0 as i64),
                    EntryValue::Undefined(a.0.to_be_bytes().to_vec()),
                    EntryValue::Text(String::new()),
                    EntryValue::U8Array(vec![]),
                ] {
                    st.note(true, exer::value(&v));
                }
            }
            Ok(st)
        },
        move |i| format!("value set {i}"),
    )
}

/// The same with everything recorded that the library logs: what it computes only for
/// its log must not fail either, and recording it must not change a result.
fn logged(t: Tier) -> Vec<Space> {
    let whole: Arc<Vec<Seed>> = Arc::new(all().into_iter().filter(|s| s.data.len() < 40_000).collect());
    let n = whole.len() as u64;
    let w2 = whole.clone();
    let check = |d: &Data, apis: &[Api], srcs: &[Src], st: &mut Stats| -> std::result::Result<(), Violation> {
        for &a in apis {
            for &s in srcs {
                let plain = parse(d, s, a);
                let (o, bytes) = crate::log::logged(|| {
                    let o = parse(d, s, a);
                    total(d, &[a], &[s], &mut Stats::default());
                    errors(d, &mut Stats::default());
                    o
                });
                if plain != o {
                    let x = diff(&plain, &o);
                    return viol("logged", format!("{a:?} from {s:?} differs while the log is recorded: {x}"));
                }
                st.note(bytes > 0, fp(&o.fp()));
            }
        }
        Ok(())
    };
    let files = Space::new(
        "logged",
        "every file of the corpus below 40 KB x every entry point x every source, with a subscriber that records and renders everything the library logs: no panic, and the same result as without",
        n * SRCS.len() as u64,
        move |i| {
            let s = &whole[(i % n) as usize];
            let mut st = Stats::default();
            check(&Arc::new(s.data.to_vec()), &[Api::Exif, Api::Track, Api::Meta], &[SRCS[(i / n) as usize]], &mut st)?;
            Ok(st)
        },
        move |i| format!("{} from {:?}", w2[(i % n) as usize].name, SRCS[(i / n) as usize]),
    );
    let ts = targets();
    let stride = t.pick(6, 1);
    let pts: Arc<Vec<(usize, usize)>> = Arc::new(ts.iter().enumerate().flat_map(|(k, s)| s.1.iter().step_by(stride).map(move |p| (k, *p)).collect::<Vec<_>>()).collect());
    // cut off, a boundary byte, a boundary number in either byte order
    const K: u64 = 10;
    let p2 = pts.clone();
    let damaged = Space::new(
        "logged-damaged",
        format!("every small seed, every position (stride {stride}): cut off there, 3 boundary bytes, 3 boundary 32-bit numbers in either byte order; from memory and an unseekable reader, recorded as above"),
        pts.len() as u64 * K,
        move |i| {
            let mut m = Mix(i);
            let k = m.d(K);
            let (f, p) = *m.of(&pts);
            let s = &ts[f].0;
            let mut d = s.data.to_vec();
            match k {
                0 => d.truncate(p),
                1..=3 => d[p] = [0, 0xff, 0x7f][k - 1],
                _ => {
                    let v: u32 = [0, 0x7fff_fff0, 0xffff_ffff][(k - 4) / 2];
                    if p + 4 > d.len() {
                        return Ok(Stats::default());
                    }
                    d[p..p + 4].copy_from_slice(&if k % 2 == 0 { v.to_le_bytes() } else { v.to_be_bytes() });
                }
            }
            let mut st = Stats::default();
            check(&Arc::new(d), natural(s.image), &[Src::Mem, Src::NoSeek], &mut st)?;
            Ok(st)
        },
        move |i| format!("seed and position {:?}, damage {}", p2[(i / K) as usize], i % K),
    );
    vec![files, damaged]
}

/// Large inputs made of very many small parts: the work must stay proportionate.
fn scale(t: Tier) -> Space {
    let n = t.pick(20_000usize, 200_000);
    let kinds = 14u64;
    let mk = move |k: usize| -> (Vec<u8>, bool) {
        let tf = tiff_le();
        match k {
            0 => {
                let mut s: Vec<Vec<u8>> = (0..n).map(|_| jseg(0xe2, &[])).collect();
                s.push(jseg(0xe1, &exif_payload(&tf)));
                (jpeg(&s, &[]), true)
            }
            1 => (png(&(0..n).map(|i| text_chunk(&format!("k{i}"), b"v")).collect::<Vec<_>>()), true),
            2 => {
                let mut c: Vec<Vec<u8>> = (0..n).map(|_| chunk(b"IDAT", &[])).collect();
                c.push(chunk(b"eXIf", &tf));
                (png(&c), true)
            }
            3 => {
                // chained directories of one entry
                let m = n.min(30_000);
                let mut o = b"II*\0\x08\0\0\0".to_vec();
                for i in 0..m {
                    o.extend_from_slice(&[1, 0, 0x12, 1, 3, 0, 1, 0, 0, 0, 6, 0, 0, 0]);
                    let nx = if i + 1 == m { 0 } else { 8 + 18 * (i as u32 + 1) };
                    o.extend_from_slice(&nx.to_le_bytes());
                }
                (o, true)
            }
            4 => {
                // overlapping chained directories: each starts 4 bytes into the previous
                let m = 8000u32;
                let mut o = b"MM\0*\0\0\0\x08".to_vec();
                for i in 0..m {
                    o.extend_from_slice(&[0, 0]);
                    o.extend_from_slice(&(8 + 6 * (i + 1)).to_be_bytes());
                }
                o.extend_from_slice(&[0; 10]);
                (o, true)
            }
            5 => {
                // one full directory whose entries all point to large shared text
                let es: Vec<En> = (0..3000u16).map(|i| raw(0x1000 + i, 2, 40_000, 8)).collect();
                let mut l = Lay::new(false);
                l.tail = 10_000;
                (tiff(&dir(es), &l).bytes, true)
            }
            6 => {
                let mut b = ftyp(b"heic", &[b"mif1"]);
                for _ in 0..n {
                    b.extend_from_slice(&bx(b"free", &[]));
                }
                b.extend_from_slice(&fbx(b"meta", 0, 0, &[]));
                (b, true)
            }
            7 => (Heif { before: n.min(30_000), iloc_ver: 2, iinf_ver: 1, infe_ver: 3, exif_id: 70_000, ..Heif::new() }.build(&tf), true),
            8 => {
                let mut b = ftyp(b"qt  ", &[]);
                for _ in 0..n {
                    b.extend_from_slice(&bx(b"free", &[]));
                }
                b.extend_from_slice(&moov_full());
                (b, false)
            }
            9 => (cat(&[ftyp(b"mp42", &[]), bx(b"moov", &(0..n).flat_map(|_| trak(b"soun", tkhd(0, 0, 0), 0)).collect::<Vec<u8>>())]), false),
            10 => {
                let mut p: Vec<Vec<u8>> = (0..n).map(|_| void(1)).collect();
                p.push(mk_info(Some(1.0), None, None));
                p.push(mk_tracks(&[mk_video(1, 2)]));
                (mkv("webm", &p), false)
            }
            11 => (mkv("webm", &[mk_info(Some(1.0), None, None), mk_tracks(&(0..n).map(|_| mk_audio()).collect::<Vec<_>>())]), false),
            12 => {
                let items: Vec<(&str, u32, Vec<u8>)> = (0..n.min(20_000)).map(|_| ("com.apple.quicktime.make", 1, b"x".to_vec())).collect();
                let order: Vec<usize> = (0..items.len()).collect();
                (cat(&[ftyp(b"qt  ", &[]), bx(b"moov", &cat(&[mvhd(0, 1, 1, 1), qt_meta(&items, &order)]))]), false)
            }
            _ => {
                let body = "GCamera:MotionPhoto=\"1\" Container:Directory ".repeat(1300) + ">";
                (jpeg(&[xmp_seg(&body), jseg(0xe1, &exif_payload(&tf))], &[]), true)
            }
        }
    };
    let mut s = Space::new(
        "scale",
        format!("14 files of up to {n} tiny parts each (segments, chunks, chained and overlapping directories, boxes, items, tracks, elements): all entry points and sources end in time"),
        kinds,
        move |i| {
            let (d, im) = mk(i as usize);
            let d = Arc::new(d);
            let mut st = Stats::default();
            for s in [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek] {
                for a in if im { [Api::Exif, Api::Meta] } else { [Api::Track, Api::Exif] } {
                    let o = parse(&d, s, a);
                    st.note(!o.is_err(), o.fp());
                }
            }
            Ok(st)
        },
        |i| format!("scale file {i}"),
    );
    s.limit_s = 120;
    s
}

pub fn spaces(t: Tier) -> Spec {
    const BYTES: [u8; 8] = [0x00, 0xff, 0x01, 0x7f, 0x80, 0x08, 0x10, 0x02];
    let mut v = vec![];
    v.push(match t {
        Tier::Quick => edits(
            "bytes",
            "every small seed, every second position, 4 boundary bytes, from memory".into(),
            2,
            4,
            |d, p, v| {
                let mut o = d.to_vec();
                o[p] = BYTES[v as usize];
                (o != d).then_some(o)
            },
            &[Src::Mem],
        ),
        Tier::Thorough => edits(
            "bytes",
            "every small seed, every position, all 256 byte values, from memory and streamed".into(),
            1,
            256,
            |d, p, v| {
                let mut o = d.to_vec();
                o[p] = v as u8;
                (o != d).then_some(o)
            },
            &[Src::Mem, Src::NoSeek],
        ),
    });
    let srcs: &'static [Src] = t.pick(&[Src::Mem][..], &[Src::Mem, Src::Seek][..]);
    v.push(edits("fields32", "every small seed, every position (every 2nd quick), 26 boundary values of a 32-bit field in both byte orders (including values tied to the file length and position)".into(), t.pick(2, 1), 52, put32, srcs));
    v.push(edits("fields64", "every small seed, every position (every 3rd quick), 14 boundary values of a 64-bit field".into(), t.pick(3, 1), 14, put64, srcs));
    v.push(edits("fields16", "every small seed, every position (every 3rd quick), 12 boundary values of a 16-bit field in both byte orders".into(), t.pick(3, 1), 24, put16, srcs));
    v.push(edits("splices", "every small seed, every position (every 5th quick), deletion / insertion / repetition / overwriting of 1..64 bytes".into(), t.pick(5, 1), 32, splice, srcs));
    v.push(pairs(t));
    v.push(graphs(t));
    v.push(heads(t));
    v.push(prefixes(t));
    v.push(tokens(t));
    v.extend(texts(t));
    v.push(api_values());
    v.extend(logged(t));
    v.push(scale(t));
    (
        "exploration",
        v,
        vec!["compiled with overflow checks and debug assertions, so that arithmetic overflow shows as a panic"],
    )
}
