//! C12 — HEIF family, CR3 and RAF: the EXIF their containers point to.
use super::c10::mini;
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use std::sync::Arc;

/// `want`: the entries, or None for "some error, no data".
fn verify(key: &str, f: Vec<u8>, want: Option<&[Ent]>, srcs: &[Src], apis: &[Api]) -> CaseResult {
    let d: Data = Arc::new(f);
    let mut st = Stats::default();
    for &s in srcs {
        for &api in apis {
            let got = parse(&d, s, api);
            st.note(want.is_some(), got.fp());
            match (want, &got) {
                (Some(w), Out::Exif(e)) | (Some(w), Out::Meta(Some(e), None)) => {
                    if e.entries != w {
                        return viol(key, format!("{api:?} {s:?}: {}", diff_entries(&e.entries, w)));
                    }
                    if e.has_track {
                        return viol(key, format!("{api:?} {s:?}: flagged as carrying a track"));
                    }
                }
                (None, Out::Err(_)) => {}
                (Some(_), _) => return viol(key, format!("{api:?} {s:?}: {} instead of the EXIF put in", trunc(&format!("{got:?}"), 300))),
                (None, _) => return viol(key, format!("{api:?} {s:?}: {} where only an error is right", trunc(&format!("{got:?}"), 300))),
            }
        }
    }
    Ok(st)
}
const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek];
const E1: [Api; 1] = [Api::Exif];
const EM: [Api; 2] = [Api::Exif, Api::Meta];

/// An Exif item that is not the one asked for.
fn decoy() -> Vec<u8> {
    [&6u32.to_be_bytes()[..], b"Exif\0\0", &mini(9, true).bytes].concat()
}

// ------------------------------------------------------------------ HEIF tables

fn table_case(i: u64, wide: bool) -> Option<Heif> {
    let mut m = Mix(i);
    let h = Heif {
        iinf_ver: m.d(2) as u8,
        infe_ver: [2, 3][m.d(2)],
        iloc_ver: m.d(3) as u8,
        osz: *m.of(&[4, 8, 0]),
        lsz: *m.of(&[4, 8]),
        bsz: *m.of(&[0, 4, 8]),
        isz: *m.of(&[0, 4, 8]),
        base: m.b(),
        before: *m.of(&[0, 1, 5]),
        after: *m.of(&[0, 2]),
        mdat_first: m.b(),
        iloc_first: m.b(),
        exif_id: *m.of(&[49, 65_535, 70_000]),
        ident: if wide { m.b() } else { i % 3 != 0 },
        mdat64: if wide { m.b() } else { i % 2 == 0 },
        lead_data: Some(decoy()),
        ..Heif::new()
    };
    if h.exif_id > 0xffff && (h.infe_ver < 3 || h.iloc_ver < 2) {
        return None;
    }
    // index_size is reserved in version 0
    if h.iloc_ver == 0 && h.isz != 0 {
        return None;
    }
    if h.base && h.bsz == 0 {
        return None;
    }
    // without an offset field the base offset has to tell the position
    if h.osz == 0 && !h.base {
        return None;
    }
    Some(h)
}
fn tables(t: Tier) -> Space {
    let wide = t == Tier::Thorough;
    let n = 2 * 2 * 3 * 3 * 2 * 3 * 3 * 2 * 3 * 2 * 2 * 2 * 3 * if wide { 4 } else { 1 };
    Space::new(
        "heif-tables",
        "iinf version 0/1 x infe version 2/3 x iloc version 0/1/2 x every legal offset, length, base and index width x base offset used or not x items before and after x item id width x table order x image data in front or behind; the other items hold a decoy EXIF",
        n,
        move |i| match table_case(i, wide) {
            None => Ok(Stats::default()),
            Some(h) => {
                let x = mini(1, i % 2 == 0);
                verify("tables", h.build(&x.bytes), Some(&x.expect), if i % 7 == 0 { &SRCS } else { &SOME[..3] }, if i % 7 == 0 { &EM } else { &E1 })
            }
        },
        move |i| format!("{:?}", table_case(i, wide)),
    )
}

fn places(t: Tier) -> Space {
    let pts = super::c02::shift_points(t);
    let p2 = pts.clone();
    let mk = |i: u64, pts: &[usize]| {
        let mut m = Mix(i);
        let form = m.d(6);
        let ident = m.b();
        let mdat64 = m.b();
        let n = *m.of(pts);
        let n8 = if n == 0 { 0 } else { n.max(8) };
        let h = Heif { ident, mdat64, ..Heif::new() };
        match form {
            0 => Heif { lead: n, ..h },
            1 => Heif { pad1: n8, ..h },
            2 => Heif { pad2: n8, ..h },
            3 => Heif { mdat_first: true, lead: n, ..h },
            4 => Heif { mdat_first: true, tail: n, ..h },
            _ => Heif { pad1: n8, pad2: n8, lead: n, tail: 0, ..h },
        }
    };
    Space::new(
        "heif-places",
        format!("{} distances x 6 places (in front of meta, between meta and mdat, inside mdat, mdat in front of meta) x item form x mdat size form", pts.len()),
        pts.len() as u64 * 24,
        move |i| {
            let h = mk(i, &pts);
            let x = mini(1, i % 2 == 0);
            verify("place", h.build(&x.bytes), Some(&x.expect), &SOME, &E1)
        },
        move |i| format!("{:?}", mk(i, &p2)),
    )
}

/// Forms of the Exif item: what lies between the offset field and the TIFF header.
fn items() -> Space {
    Space::new(
        "heif-items",
        "Exif item with 0..64 bytes between the offset field and the TIFF header, filler, or the Exif identifier plus filler, before every size 0..300 of trailing data, either byte order",
        65 * 2 * 2 * 31,
        |i| {
            let mut m = Mix(i);
            let (gap, ident, be, tail) = (m.d(65), m.b(), m.b(), m.d(31) * 10);
            let x = mini(1, be);
            let mut v = (gap as u32).to_be_bytes().to_vec();
            let mut g = filler(gap);
            if ident {
                if gap < 6 {
                    return Ok(Stats::default());
                }
                g[..6].copy_from_slice(b"Exif\0\0");
            }
            v.extend_from_slice(&g);
            v.extend_from_slice(&x.bytes);
            v.extend_from_slice(&filler(tail));
            verify("item", Heif { lead_data: Some(decoy()), ..Heif::new() }.build_item(&v), Some(&x.expect), &SOME[..3], &E1)
        },
        |i| format!("gap {} identifier {} be {} tail {}", i % 65, i / 65 % 2, i / 130 % 2, i / 260 * 10),
    )
}

/// What else the tables and the meta box hold: items of every kind, located in every way.
fn neighbours(t: Tier) -> Space {
    let names: [&str; 4] = ["", "Exif", "\u{e9}\u{4e2d}", &"n".repeat(300)].map(|s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) });
    // (version, flags, protection, type, name, rest)
    let kinds = move |k: usize, id: u32| -> Vec<u8> {
        let name = names[k % 4];
        let (ver, flags, prot, ty, rest): (u8, u32, u16, &[u8], Vec<u8>) = match k / 4 {
            0 => (2, 0, 0, b"hvc1", vec![]),
            1 => (2, 1, 0, b"grid", vec![]),
            2 => (2, 0, 1, b"hvc1", vec![]),
            3 => (3, 1, 0xffff, b"av01", vec![]),
            4 => (2, 0, 0, b"mime", b"application/rdf+xml\0".to_vec()),
            5 => (2, 1, 0, b"mime", b"application/rdf+xml\0deflate\0".to_vec()),
            6 => (3, 0, 0, b"mime", b"image/jpeg\0\0".to_vec()),
            7 => (2, 0, 0, b"mime", b"\0".to_vec()),
            8 => (2, 0, 0, b"uri ", b"urn:com:apple:photo:2020:aux\0".to_vec()),
            9 => (2, 0, 0, b"exif", vec![]),
            10 => (2, 0, 0, b"    ", vec![]),
            11 => (3, 0xffffff, 0, b"tmap", vec![]),
            12 => (0, 0, 0, b"", b"image/jpeg\0".to_vec()),
            13 => (0, 0, 2, b"", b"image/jpeg\0deflate\0".to_vec()),
            _ => (1, 0, 0, b"", b"image/jpeg\0\0".to_vec()),
        };
        let mut b = if ver > 2 { id.to_be_bytes().to_vec() } else { (id as u16).to_be_bytes().to_vec() };
        b.extend_from_slice(&prot.to_be_bytes());
        b.extend_from_slice(ty);
        // an item of the old form has no type, so its name is what it is called by
        b.extend_from_slice(if ver < 2 && name == "Exif" { b"exif" } else { name.as_bytes() });
        b.push(0);
        b.extend_from_slice(&rest);
        fbx(b"infe", ver, flags, &b)
    };
    let places: [Option<(u16, u16, usize)>; 8] = [None, Some((0, 0, 0)), Some((0, 0, 1)), Some((0, 0, 2)), Some((0, 0, 32)), Some((1, 0, 1)), Some((2, 0, 3)), Some((0, 1, 1))];
    let pairs = t.pick(4u64, 61);
    let n = 61 * pairs * 8 * 3 * 3;
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let form = m.d(3);
        let at = m.d(8);
        let first = m.d(61);
        let second = m.d(pairs) * t.pick(17, 1) as usize;
        let own = m.d(3);
        let mut others = vec![];
        for (j, k) in [first, second].into_iter().enumerate() {
            if k < 60 {
                others.push((300 + j as u32, kinds(k, 300 + j as u32), places[(at + j * 3) % 8]));
            }
        }
        let fill = |n: usize| cat(&[bx(b"iref", &filler(n)), bx(b"idat", &decoy()), bx(b"iprp", &bx(b"ipco", &filler(20))), bx(b"free", &decoy())]);
        Heif {
            lead_data: Some(decoy()),
            iinf_ver: (form > 0) as u8,
            infe_ver: [2, 3, 2][form],
            iloc_ver: [1, 2, 1][form],
            isz: [0, 4, 8][form],
            bsz: [0, 0, 4][form],
            others,
            boxes: [fill(4 * (i % 5) as usize), fill(30), fill(if i % 3 == 0 { 3000 } else { 0 })],
            flags: [0, 1, 0][own],
            prot: [0, 0, 0x0201][own],
            name: [None, Some("Exif metadata".to_string()), Some("x".repeat(200))][own].clone(),
            ..Heif::new()
        }
    };
    Space::new(
        "heif-neighbours",
        format!("items of 15 kinds x 4 names (hidden, protected, mime with and without encoding, uri, versions 0, 1 and 3), singly and with {} others, located nowhere, with no, 1, 2 or 32 extents, in idat, in another item or outside the file, in front of an Exif item plain, hidden and named, or protected; other boxes around the tables hold a decoy EXIF", pairs),
        n,
        move |i| {
            let x = mini(1, i % 2 == 0);
            verify("neighbours", mk(i).build(&x.bytes), Some(&x.expect), &SOME[..3], &E1)
        },
        move |i| trunc(&format!("{:?}", mk(i)), 900),
    )
}

/// Many items: the Exif item is picked by type, wherever it is listed.
fn many(t: Tier) -> Space {
    let max = t.pick(200, 2000);
    Space::new(
        "heif-many",
        format!("0..{max} other items (named like the Exif item or not) in front of, around, or behind the Exif item"),
        max * 3 * 2,
        move |i| {
            let mut m = Mix(i);
            let (place, v3) = (m.d(3), m.b());
            let n = m.d(max);
            let h = Heif {
                before: [n, n / 2, 0][place],
                after: [0, n - n / 2, n][place],
                exif_id: 60_000,
                infe_ver: if v3 { 3 } else { 2 },
                iinf_ver: v3 as u8,
                iloc_ver: if v3 { 2 } else { 1 },
                lead_data: Some(decoy()),
                ..Heif::new()
            };
            let x = mini(1, true);
            verify("many", h.build(&x.bytes), Some(&x.expect), &SOME[..3], &E1)
        },
        |i| format!("place {} wide {} items {}", i % 3, i / 3 % 2, i / 6),
    )
}

/// Files whose tables do not lead to an Exif item in the file.
fn broken() -> Space {
    let fields: [u64; 10] = [0, 1, 4, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, u64::MAX, u64::MAX - 3, 1 << 62, 1 << 40];
    let n = 13 * 10 * 2 * 2;
    Space::new(
        "heif-broken",
        "no Exif item, no item tables, item not located, no extent, extent beyond the file or overflowing, extent shorter than the header, unsupported construction methods, illegal field widths, truncated tables, item without TIFF data: each with decoy EXIF in the file",
        n,
        move |i| {
            let mut m = Mix(i);
            let kind = m.d(13);
            let val = *m.of(&fields);
            let wide = m.b();
            let first = m.b();
            let x = mini(1, true);
            let mut h = Heif {
                lead_data: Some(decoy()),
                osz: if wide { 8 } else { 4 },
                lsz: if wide { 8 } else { 4 },
                mdat_first: first,
                ..Heif::new()
            };
            let w = h.osz as usize;
            let mut f;
            let find = |f: &[u8], t: &[u8; 4]| {
                let meta = f.windows(4).position(|x| x == b"meta").unwrap();
                meta + f[meta..].windows(4).position(|x| x == t).unwrap()
            };
            match kind {
                0 => {
                    h.with_exif = false;
                    f = h.build(&x.bytes);
                }
                // rename a table, the Exif item type, or its id in one table
                1 | 2 | 3 => {
                    f = h.build(&x.bytes);
                    let at = find(&f, [b"iinf", b"iloc", b"Exif"][kind - 1]);
                    f[at] = b'x';
                }
                4 => {
                    f = h.build(&x.bytes);
                    // infe: [size][infe][ver flags][id u16][prot u16]["Exif"]
                    let at = find(&f, b"Exif");
                    f[at - 3] = 99;
                }
                // offset or length of the extent: the last fields of iloc
                5 | 6 => {
                    f = h.build(&x.bytes);
                    let at = find(&f, b"iloc") - 4;
                    let size = u32::from_be_bytes(f[at..at + 4].try_into().unwrap()) as usize;
                    let end = at + size;
                    let p = if kind == 5 { end - 2 * w } else { end - w };
                    let v = if kind == 5 && val < 100 { f.len() as u64 + val } else { val };
                    if w == 4 && v > 0xffff_ffff {
                        return Ok(Stats::default());
                    }
                    f[p..p + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
                }
                // no extents
                7 => {
                    f = h.build(&x.bytes);
                    let at = find(&f, b"iloc") - 4;
                    let size = u32::from_be_bytes(f[at..at + 4].try_into().unwrap()) as usize;
                    let p = at + size - 2 * w - 2;
                    f[p..p + 2].copy_from_slice(&0u16.to_be_bytes());
                }
                8 => {
                    h.method = 1;
                    f = h.build(&x.bytes);
                }
                9 => {
                    h.method = 2;
                    f = h.build(&x.bytes);
                }
                // field widths that do not exist
                10 => {
                    f = h.build(&x.bytes);
                    let at = find(&f, b"iloc") + 8;
                    let bad = [1u8, 2, 3, 5, 6, 7, 9, 12, 15, 10][fields.iter().position(|z| *z == val).unwrap()];
                    f[at] = (bad << 4) | 4;
                }
                // more items announced than the table holds
                11 => {
                    f = h.build(&x.bytes);
                    let at = find(&f, b"iloc") + 10;
                    f[at] = 0xff;
                }
                // the item holds no TIFF data
                _ => {
                    let body: Vec<u8> = match val {
                        0 => vec![],
                        1 => 6u32.to_be_bytes().to_vec(),
                        4 => [&6u32.to_be_bytes()[..], b"Exif\0\0"].concat(),
                        0x7fff_ffff => [&0x7fff_ffffu32.to_be_bytes()[..], &x.bytes].concat(),
                        0xffff_ffff => [&0xffff_ffffu32.to_be_bytes()[..], &x.bytes].concat(),
                        0x1_0000_0000 => [&0u32.to_be_bytes()[..], &filler(100)].concat(),
                        u64::MAX => [&3u32.to_be_bytes()[..], &x.bytes].concat(),
                        _ => filler(200),
                    };
                    h.tail = 0;
                    f = h.build_item(&body);
                    f.extend_from_slice(&bx(b"free", &exif_payload(&x.bytes)));
                }
            }
            verify(&format!("broken-{kind}"), f, None, &SRCS, &EM)
        },
        move |i| format!("kind {} value {:#x} wide {} mdat first {}", i % 13, fields[(i / 13 % 10) as usize], i / 130 % 2, i / 260),
    )
}

/// Every brand that is detected as HEIF family.
fn brands() -> Space {
    let majors: [&[u8; 4]; 12] = [b"heic", b"heix", b"heim", b"heis", b"hevc", b"hevx", b"mif1", b"msf1", b"avif", b"avis", b"miaf", b"MiHE"];
    let compats: [&[u8; 4]; 6] = [b"mif1", b"heic", b"avif", b"miaf", b"MiHB", b"heif"];
    Space::new(
        "heif-brands",
        "12 major brands x every subset of 6 compatible brands: when it is taken for an image at all, its EXIF is found",
        12 * 64,
        move |i| {
            let mut m = Mix(i);
            let major = *m.of(&majors);
            let set = m.d(64);
            let c: Vec<[u8; 4]> = (0..6).filter(|k| set >> k & 1 == 1).map(|k| *compats[k]).collect();
            let sure = matches!(major, b"heic" | b"avif") || c.iter().any(|x| matches!(x, b"heic" | b"avif"));
            let x = mini(1, false);
            let f = Heif { brand: *major, compat: c, ..Heif::new() }.build(&x.bytes);
            if !sure && kind_of(&f) != "Image" {
                return Ok(Stats::default());
            }
            verify("brand", f, Some(&x.expect), &SRCS, &EM)
        },
        move |i| format!("major {} compat set {:#b}", String::from_utf8_lossy(majors[(i % 12) as usize]), i / 12),
    )
}

// ------------------------------------------------------------------ CR3

fn block(id: usize, be: bool) -> Dir {
    // overlapping tags: 0x0112 and 0x010f occur in several blocks
    let _ = be;
    match id {
        1 => dir(vec![en(0x010f, Val::s("maker one")), en(0x0112, Val::U16(vec![1])), en(0x0100, Val::U32(vec![600]))]),
        2 => dir(vec![en(0x829a, Val::URat(vec![(1, 200)])), en(0x0112, Val::U16(vec![2])), en(0x8827, Val::U16(vec![400])), en(0x010f, Val::s("maker two"))]),
        3 => dir(vec![en(0x0112, Val::U16(vec![3])), en(0x0001, Val::U16(vec![33])), en(0x8822, Val::U16(vec![3]))]),
        _ => dir(vec![en(0x0002, Val::URat(vec![(4, 1), (4, 1), (4, 1)])), en(0x8824, Val::s("four"))]),
    }
}
fn cr3(t: Tier) -> Vec<Space> {
    // arrangements of the blocks 1..4 with 1 present, every subset and order
    let mut arr: Vec<Vec<usize>> = vec![];
    for set in 0..8usize {
        let mut items = vec![1usize];
        items.extend((0..3).filter(|k| set >> k & 1 == 1).map(|k| k + 2));
        for k in 0..fact(items.len()) {
            arr.push(perm(items.len(), k).into_iter().map(|j| items[j]).collect());
        }
    }
    let na = arr.len() as u64;
    let arr = Arc::new(arr);
    let build = {
        let arr = arr.clone();
        move |a: usize, be: usize, pad1: usize, inner: usize, foreign: bool, trak: usize| {
            let mut want = vec![];
            let mut cm: Vec<([u8; 4], Vec<u8>)> = vec![];
            let name = |k: usize| [*b"CMT1", *b"CMT2", *b"CMT3", *b"CMT4"][k - 1];
            for &k in &arr[a] {
                let b = be >> (k - 1) & 1 == 1;
                cm.push((name(k), tiff(&block(k, b), &Lay::new(b)).bytes));
            }
            // CMT1 first, then CMT2, whatever their order in the file
            for k in [1, 2] {
                if arr[a].contains(&k) {
                    for e in tiff(&block(k, false), &Lay::new(be >> (k - 1) & 1 == 1)).expect {
                        if !want.iter().any(|w: &Ent| (w.ifd, w.code) == (e.ifd, e.code)) {
                            want.push(e);
                        }
                    }
                }
            }
            (Cr3 { pad1, inner, foreign, trak, ..Cr3::new(cm) }.build(), want)
        }
    };
    let b1 = build.clone();
    let layouts = Space::new(
        "cr3-layouts",
        format!("{na} orders and subsets of the four CMT blocks (the main one present) x their byte orders x a foreign uuid box x filler boxes around and inside; tags repeated across blocks"),
        na * 16 * 2 * 3 * 3 * 2,
        move |i| {
            let mut m = Mix(i);
            let be = m.d(16);
            let foreign = m.b();
            let (p, inn, tr) = (*m.of(&[0usize, 8, 200]), *m.of(&[0usize, 8, 100]), *m.of(&[0usize, 300]));
            let (f, w) = b1(m.d(na), be, p, inn, foreign, tr);
            verify("cr3", f, Some(&w), if i % 5 == 0 { &SRCS } else { &SOME[..3] }, if i % 5 == 0 { &EM } else { &E1 })
        },
        |i| format!("index {i}: byte orders {:#b}, foreign {}, pad {}, inner {}, trak {}, arrangement {}", i % 16, i / 16 % 2, i / 32 % 3, i / 96 % 3, i / 288 % 2, i / 576),
    );
    let pts = super::c02::shift_points(t);
    let p2 = pts.clone();
    let places = Space::new(
        "cr3-places",
        format!("{} distances in front of moov, inside the Canon box, and behind it", pts.len()),
        pts.len() as u64 * 3,
        move |i| {
            let mut m = Mix(i);
            let k = m.d(3);
            let n = *m.of(&pts);
            let n8 = if n == 0 { 0 } else { n.max(8) };
            let full = arr.iter().position(|a| a == &[1, 2, 3, 4]).unwrap();
            let (f, w) = build(full, n % 16, if k == 0 { n8 } else { 0 }, if k == 1 { n8 } else { 0 }, false, if k == 2 { n } else { 10 });
            verify("cr3-place", f, Some(&w), &SOME, &E1)
        },
        move |i| format!("place {} distance {}", i % 3, p2[(i / 3) as usize]),
    );
    // small boxes ahead of Canon's, and boxes with a 64-bit size
    let build2 = |i: u64| {
        let mut m = Mix(i);
        let wide = m.d(64) as u8;
        let (k, n) = (m.d(7), m.d(20));
        let x = mini(1, m.b());
        let ty = dir(vec![en(0x9100, Val::U32(vec![70_001]))]);
        let y = tiff(&ty, &Lay::new(m.b()));
        let one = match k {
            0 => vec![],
            1 => bx(b"uuid", &CANON[..n.min(15)]),
            2 => bx(b"uuid", &filler(n)),
            3 => cat(&[bxs(b"uuid", &filler(n), Sz::S64), bx(b"uuid", &[])]),
            // the Canon box's look-alikes: another type, another identifier
            4 | 5 => {
                let inner = cat(&[bx(b"CNCV", &filler(n)), bx(b"CMT1", &mini(7, true).bytes), bx(b"CMT2", &mini(8, false).bytes)]);
                let mut id = CANON;
                if k == 5 {
                    id[n % 16] ^= 1 << (n % 7);
                }
                bx(if k == 4 { [b"free", b"skip", b"udta", b"UUID"][n % 4] } else { b"uuid" }, &cat(&[id.to_vec(), inner]))
            }
            _ => cat(&[bx(b"mvhd", &filler(n)), bxs(b"free", &filler(n), Sz::S64), bx(b"udta", &[])]),
        };
        let mut want = x.expect.clone();
        want.extend(y.expect.clone());
        let mut c = Cr3::new(vec![(*b"CMT1", x.bytes), (*b"CMT2", y.bytes), (*b"CMT3", mini(9, true).bytes)]);
        c.ahead = one;
        c.wide = wide;
        (c, want)
    };
    let small = Space::new(
        "cr3-boxes",
        "every choice of 32- and 64-bit sizes for the movie box, the Canon box, and what it holds, with a uuid box of 0 to 19 bytes, a part of the Canon identifier, the Canon contents in a box of another type or with one bit of the identifier changed, or other small boxes ahead",
        64 * 7 * 20 * 4,
        move |i| {
            let (c, w) = build2(i);
            verify("cr3-box", c.build(), Some(&w), &SOME[..2], &E1)
        },
        move |i| format!("wide {:#b} ahead {:?}", i % 64, build2(i).0.ahead),
    );
    // directories beyond the main one, so that offsets coincide between the blocks
    let subs = Space::new(
        "cr3-directories",
        "both Canon blocks with any of no, an Exif, a GPS or a linked directory, or two of them, each in any of 3 arrangements of its directories, every byte order: what lies at the same offset in the other block is another directory",
        6 * 6 * 3 * 3 * 4,
        |i| {
            let mut m = Mix(i);
            let (ka, kb) = (m.d(6), m.d(6));
            let (la, lb) = (m.d(3), m.d(3));
            let be = m.d(4);
            let blk = |which: u16, kind: usize| {
                let own = en(0x9100 + which, Val::U32(vec![which as u32 + 70_000]));
                let inner = |k: u16| dir(vec![en(0x9200 + which * 16 + k, Val::U32(vec![k as u32 + 80_000])), en(0x9300 + which * 16 + k, Val::U16(vec![k, which]))]);
                let mut v = vec![en(0x0110, Val::U16(vec![which])), own];
                match kind {
                    1 => v.push(sub(EXIF_PTR, inner(1))),
                    2 => v.push(sub(GPS_PTR, inner(2))),
                    3 => v.extend([sub(EXIF_PTR, inner(3)), sub(GPS_PTR, inner(7))]),
                    4 => return dir(v).with_next(inner(4)),
                    5 => {
                        v.push(sub(EXIF_PTR, inner(5)));
                        return dir(v).with_next(inner(6));
                    }
                    _ => {}
                }
                dir(v)
            };
            let mut cm = vec![];
            let mut want: Vec<Ent> = vec![];
            for (w, kind, l, name) in [(1u16, ka, la, *b"CMT1"), (2, kb, lb, *b"CMT2")] {
                let b = be >> (w - 1) & 1 == 1;
                let x = tiff(&blk(w, kind), &Lay { order: [Order::Natural, Order::Reversed, ORDERS[2].clone()][l].clone(), ..Lay::new(b) });
                cm.push((name, x.bytes));
                for e in x.expect {
                    if !want.iter().any(|w: &Ent| (w.ifd, w.code) == (e.ifd, e.code)) {
                        want.push(e);
                    }
                }
            }
            verify("cr3-directories", Cr3::new(cm).build(), Some(&want), &SOME[..2], &E1)
        },
        |i| format!("kinds {} {} arrangements {} {} byte orders {:#b}", i % 6, i / 6 % 6, i / 36 % 3, i / 108 % 3, i / 324),
    );
    let bad = Space::new(
        "cr3-none",
        "no Canon box, Canon box without blocks, block too short, block without TIFF header, no moov: with decoy EXIF elsewhere",
        5 * 2,
        |i| {
            let x = mini(1, false);
            let foreign = i % 2 == 1;
            let mut c = Cr3 { foreign, ..Cr3::new(vec![(*b"CMT1", x.bytes.clone())]) };
            let mut f;
            match i / 2 {
                0 => {
                    c.canon = false;
                    f = c.build();
                }
                1 => {
                    c.cmts = vec![(*b"XMT1", x.bytes.clone())];
                    f = c.build();
                }
                2 => {
                    c.cmts = vec![(*b"CMT1", x.bytes[..7].to_vec())];
                    f = c.build();
                }
                3 => {
                    c.cmts = vec![(*b"CMT1", exif_payload(&filler(100)))];
                    f = c.build();
                }
                _ => {
                    f = c.build();
                    let at = f.windows(4).position(|w| w == b"moov").unwrap();
                    f[at] = b'x';
                }
            }
            f.extend_from_slice(&bx(b"free", &exif_payload(&x.bytes)));
            verify("cr3-none", f, None, &SRCS, &EM)
        },
        |i| format!("kind {} foreign {}", i / 2, i % 2),
    );
    vec![layouts, places, small, subs, bad]
}

// ------------------------------------------------------------------ RAF

fn raf_spaces(t: Tier) -> Vec<Space> {
    let pts = super::c02::shift_points(t);
    let p2 = pts.clone();
    let cams: [&[u8]; 4] = [b"X-T1", b"", b"X-Pro3 with a name of 32 bytes..", b"\xff\xfe\x80 not UTF-8"];
    let places = Space::new(
        "raf-places",
        format!("{} distances of the preview JPEG x 4 camera names x plain or busy preview", pts.len()),
        pts.len() as u64 * 8,
        move |i| {
            let mut m = Mix(i);
            let cam = *m.of(&cams);
            let busy = m.b();
            let n = *m.of(&pts);
            let x = mini(1, i % 2 == 0);
            let j = if busy {
                jpeg(&[jfif(), xmp_seg("<x/>"), jseg(0xe2, &exif_payload(&mini(9, true).bytes)), jseg(0xe1, &exif_payload(&x.bytes)), jseg(0xdb, &[0; 65])], &filler(500))
            } else {
                jpeg_with_exif(&x.bytes)
            };
            verify("raf", raf(&j, n, cam), Some(&x.expect), &SOME, &E1)
        },
        move |i| format!("camera {} busy {} distance {}", i % 4, i / 4 % 2, p2[(i / 8) as usize]),
    );
    let seg = Space::new(
        "raf-segments",
        "a segment of every length 0..65533 step 13 in front of the EXIF segment of the preview",
        65_534 / 13,
        |i| {
            let x = mini(1, true);
            let j = jpeg(&[jseg(0xe2, &filler(i as usize * 13)), jseg(0xe1, &exif_payload(&x.bytes))], &filler(50));
            verify("raf-segment", raf(&j, 5, b"X"), Some(&x.expect), &SOME, &E1)
        },
        |i| format!("length {}", i * 13),
    );
    let bad = Space::new(
        "raf-none",
        "preview without EXIF, offset inside the header, at its end, beyond the file, or at something that is no JPEG: with decoy EXIF elsewhere",
        7 * 2,
        |i| {
            let x = mini(1, false);
            let plain = jpeg(&[jfif(), jseg(0xe2, &exif_payload(&x.bytes))], &filler(300));
            let real = jpeg_with_exif(&x.bytes);
            let mut f = raf(if i / 2 == 0 { &plain } else { &real }, 100, b"X");
            let at = 16 + 4 + 8 + 32 + 4 + 20;
            let off = match i / 2 {
                0 => None,
                1 => Some(0u32),
                2 => Some(20),
                3 => Some(at as u32),
                4 => Some(f.len() as u32 + 10),
                5 => Some(u32::MAX),
                _ => Some(at as u32 + 30),
            };
            if let Some(o) = off {
                f[at..at + 4].copy_from_slice(&o.to_be_bytes());
            }
            if i % 2 == 1 {
                f.extend_from_slice(&real);
            }
            verify("raf-none", f, None, &SRCS, &EM)
        },
        |i| format!("kind {} trailing {}", i / 2, i % 2),
    );
    vec![places, seg, bad]
}

/// The file ends with, or soon after, the EXIF.
fn ends() -> Space {
    Space::new(
        "ends",
        "HEIF, CR3 (with and without compatible brands, Canon box last in the movie box) and RAF files that end 0 to 40 bytes behind the last byte of the EXIF; RAF with the preview complete and cut off behind its EXIF segment",
        41 * 5 * 2,
        |i| {
            let mut m = Mix(i);
            let kind = m.d(5);
            let be = m.b();
            let k = m.0 as usize;
            let x = mini(1, be);
            let f = match kind {
                0 => Heif { tail: k, ..Heif::new() }.build(&x.bytes),
                1 | 2 => {
                    let mut u = CANON.to_vec();
                    u.extend_from_slice(&bx(b"CNCV", b"CanonCR3_001/00.09.00/00.00.00"));
                    u.extend_from_slice(&bx(b"CMT1", &x.bytes));
                    let compat: &[&[u8; 4]] = if kind == 1 { &[b"crx ", b"isom"] } else { &[] };
                    cat(&[ftyp(b"crx ", compat), bx(b"moov", &cat(&[bx(b"trak", &filler(30)), bx(b"uuid", &u)])), filler(k)])
                }
                3 => {
                    let mut f = raf(&jpeg_with_exif(&x.bytes), 3, b"X");
                    let at = f.windows(x.bytes.len()).position(|w| w == x.bytes).unwrap() + x.bytes.len();
                    f.truncate(at + k);
                    f
                }
                _ => {
                    let mut f = raf(&jpeg_with_exif(&x.bytes), 0, b"X");
                    f.truncate(f.len() - 300 + k);
                    f
                }
            };
            verify("ends", f, Some(&x.expect), &SRCS, &EM)
        },
        |i| format!("kind {} order {} behind {}", i % 5, i / 5 % 2, i / 10),
    )
}

/// The filler box of `n` eight-byte units as that many empty boxes.
fn split(mut f: Vec<u8>, n: usize) -> Vec<u8> {
    if n > 0 {
        let head = [&(8 * n as u32).to_be_bytes()[..], b"free"].concat();
        let at = f.windows(8).position(|w| w == head).expect("the filler box");
        f[at..at + 8 * n].copy_from_slice(&[0, 0, 0, 8, b'f', b'r', b'e', b'e'].repeat(n));
    }
    f
}
/// Very many small boxes on the way to the metadata.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=72).chain((75..=300).step_by(15)).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 8192]).collect(),
        Tier::Thorough => (0..=700).chain([1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8192, 20_000, 32_000]).collect(),
    });
    const KINDS: u64 = 11;
    let n2 = ns.clone();
    Space::new(
        "crowded",
        "0 to 8192 (thorough 32000) small boxes ahead of the meta box, in it ahead of, between and behind its tables, or between it and the media data (HEIF), ahead of the movie box, in it ahead of the Canon box, in the Canon box, or metadata blocks of unknown kind in it (CR3), or as many compatible brands (HEIF, CR3): the EXIF is found all the same",
        KINDS * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (kind, n) = (m.d(KINDS), *m.of(&ns));
            let x = mini(1, i % 2 == 0);
            let small = || bx(b"free", b"").repeat(n);
            let key = format!("crowded:{kind}:{n}");
            let f = if kind < 6 {
                let mut h = Heif::new();
                match kind {
                    0 => h.pad1 = 8 * n,
                    1..=3 => h.boxes[kind - 1] = small(),
                    4 => h.pad2 = 8 * n,
                    _ => h.compat.splice(0..0, vec![*b"abcd"; n]).for_each(drop),
                }
                let f = h.build(&x.bytes);
                if kind == 0 || kind == 4 { split(f, n) } else { f }
            } else {
                let mut c = Cr3::new(vec![(*b"CMT1", x.bytes.clone())]);
                match kind {
                    6 => c.pad1 = 8 * n,
                    7 => c.ahead = small(),
                    8 => c.inner = 8 * n,
                    9 => c.cmts.splice(0..0, (0..n).map(|_| (*b"CCTP", b"12".to_vec()))).for_each(drop),
                    _ => c.ahead = bx(b"uuid", &[0x11; 16]).repeat(n),
                }
                let f = c.build();
                if kind == 6 || kind == 8 { split(f, n) } else { f }
            };
            verify(&key, f, Some(&x.expect), &SOME[..3], &E1)
        },
        move |i| {
            let mut m = Mix(i);
            format!("kind {}, {} of them", m.d(KINDS), m.of(&n2))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![tables(t), places(t), items(), neighbours(t), many(t), crowded(t), broken(), brands(), ends(), super::c19::far(t, &["heic", "cr3", "raf"])];
    v.extend(cr3(t));
    v.extend(raf_spaces(t));
    (
        "exploration",
        v,
        vec!["HEIF: one Exif item with one extent, file-offset construction; CR3: main (CMT1) and Exif (CMT2) blocks, the maker-note block is documented as skipped"],
    )
}
