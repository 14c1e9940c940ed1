//! C07 — every entry once, with exactly the stored value.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::io::Data;
use crate::outcome::*;
use std::sync::Arc;

/// Entries agree: same order, directory, code; same value, or both unreadable.
pub fn agree(got: &[Ent], want: &[Ent]) -> std::result::Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        let ok = match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => {
                g.ifd == w.ifd
                    && g.code == w.code
                    && match (&g.val, &w.val) {
                        (Ok(a), Ok(b)) => a == b,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    }
            }
            _ => false,
        };
        if !ok {
            return Err(trunc(
                &format!("entry #{i} is {:?}, the file says {:?} ({} entries, {} expected)", got.get(i), want.get(i), got.len(), want.len()),
                900,
            ));
        }
    }
    Ok(())
}

pub fn exif_of(data: Vec<u8>, src: Src) -> std::result::Result<ExifOut, String> {
    let d: Data = Arc::new(data);
    match parse(&d, src, Api::Exif) {
        Out::Exif(e) => Ok(e),
        o => Err(format!("parse gives {o:?}")),
    }
}

pub fn check_tiff(key: String, t: Tiff, srcs: &[Src]) -> CaseResult {
    let mut st = Stats::default();
    for &s in srcs {
        // the streaming sources may reject files within the detection window
        if t.bytes.len() <= 128 && STREAMS.contains(&s) {
            continue;
        }
        match exif_of(t.bytes.clone(), s) {
            Err(e) => return viol(key, format!("{e} from {s:?}")),
            Ok(e) => {
                if let Err(m) = agree(&e.entries, &t.expect) {
                    return viol(key, format!("from {s:?}: {m}"));
                }
                st.note(!e.entries.is_empty(), fp(&e.entries));
            }
        }
    }
    Ok(st)
}

const FMTS: u64 = 12;
/// k-th value list of a format with the given count: elements cycle through the
/// boundary values of the format, starting at k.
pub fn val(fmt: usize, count: usize, k: usize) -> Val {
    fn cyc<T: Copy>(xs: &[T], n: usize, k: usize) -> Vec<T> {
        (0..n).map(|i| xs[(i + k) % xs.len()]).collect()
    }
    let u8s = [0x12u8, 0, 1, 0x7f, 0x80, 0xff, 0x41];
    let u16s = [0x1234u16, 0, 1, 0x00ff, 0xff00, 0x7fff, 0x8000, 0xffff];
    let u32s = [0x12345678u32, 0, 1, 0xff, 0xff000000, 0x7fffffff, 0x80000000, 0xffffffff];
    match fmt {
        0 => Val::U8(cyc(&u8s, count, k)),
        1 => {
            let mut v = cyc(b"Abc 09~%z", count, k);
            // terminated, unterminated, interior NUL
            if count > 0 && k % 3 == 0 {
                v[count - 1] = 0;
            }
            if count > 2 && k % 3 == 1 {
                v[count / 2] = 0;
            }
            Val::Ascii(v)
        }
        2 => Val::U16(cyc(&u16s, count, k)),
        3 => Val::U32(cyc(&u32s, count, k)),
        4 => Val::URat(cyc(&u32s, count * 2, k).chunks(2).map(|c| (c[0], c[1])).collect()),
        5 => Val::I8(cyc(&u8s, count, k).iter().map(|x| *x as i8).collect()),
        6 => Val::Undef(cyc(&u8s, count, k)),
        7 => Val::I16(cyc(&u16s, count, k).iter().map(|x| *x as i16).collect()),
        8 => Val::I32(cyc(&u32s, count, k).iter().map(|x| *x as i32).collect()),
        9 => Val::IRat(cyc(&u32s, count * 2, k).chunks(2).map(|c| (c[0] as i32, c[1] as i32)).collect()),
        10 => Val::F32(cyc(&[1.5f32, 0.0, -0.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NAN, -3.25e-7], count, k)),
        _ => Val::F64(cyc(&[1.5f64, 0.0, -0.0, f64::MIN, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::NEG_INFINITY, f64::NAN, 3.25e-77], count, k)),
    }
}

/// the entry under test placed in directory `d` (0 main, 1 Exif, 2 GPS, 3 thumbnail, 4 third)
fn placed(e: En, d: usize) -> Dir {
    let a = |x: u16| en(x, Val::U16(vec![x ^ 0x5555]));
    let z = |x: u16| en(x, Val::s("neighbour"));
    let main = |mut v: Vec<En>| {
        v.insert(0, a(0x0100));
        v.push(z(0x0131));
        v
    };
    match d {
        0 => dir(main(vec![e])),
        1 => dir(main(vec![sub(EXIF_PTR, dir(vec![a(0xa001), e, z(0xa433)]))])),
        2 => dir(main(vec![sub(GPS_PTR, dir(vec![en(0, Val::U8(vec![2, 3, 0, 0])), e, z(0x001d)]))])),
        3 => dir(main(vec![])).with_next(dir(vec![a(0x0103), e, z(0x013b)])),
        _ => dir(main(vec![])).with_next(dir(vec![a(0x0103)]).with_next(dir(vec![e, z(0x013b)]))),
    }
}

fn values(t: Tier) -> Space {
    let counts: Vec<usize> = match t {
        Tier::Quick => (0..=9).chain([16, 255, 256, 1000]).collect(),
        Tier::Thorough => (0..=40).chain([63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000]).collect(),
    };
    let tags: &'static [u16] = &[0x927c, 0xfff1, 0x0010];
    let pats = 10u64;
    let n = FMTS * counts.len() as u64 * pats * 2 * 5 * tags.len() as u64;
    let c2 = counts.clone();
    let dec = move |i: u64, counts: &[usize]| {
        let mut m = Mix(i);
        let fmt = m.d(FMTS);
        let count = *m.of(counts);
        let k = m.d(pats);
        let be = m.b();
        let d = m.d(5);
        let tag = *m.of(tags);
        (fmt, count, k, be, d, tag)
    };
    Space::new(
        "values",
        "12 formats x counts x boundary-value patterns x byte order x 5 directories x known/unknown tags, inline and at offsets",
        n,
        move |i| {
            let (fmt, count, k, be, d, tag) = dec(i, &counts);
            if count > 4096 && (d > 1 || k > 2) {
                return Ok(Stats::default());
            }
            let v = val(fmt, count, k);
            let t = tiff(&placed(en(tag, v), d), &Lay::new(be));
            check_tiff(format!("values:{fmt}:{count}:{k}:{be}:{d}:{tag:#x}"), t, &[Src::Mem])
        },
        move |i| {
            let (fmt, count, k, be, d, tag) = dec(i, &c2);
            trunc(&format!("tag {tag:#x} {:?} in directory {d}, big-endian {be}", val(fmt, count.min(12), k)), 300)
        },
    )
}

fn tags() -> Space {
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.d(65536) as u16, m.d(4), m.b())
    };
    Space::new(
        "tags",
        "all 65536 tag codes x {main, Exif, GPS, thumbnail directory} x byte order, with an inline and an out-of-line value (sub-directory pointers and date-times belong to other spaces, tag 0 outside GPS is the documented end-of-table sentinel)",
        65536 * 8,
        move |i| {
            let (tag, d, be) = dec(i);
            if [EXIF_PTR, GPS_PTR, 0x0132, 0x9003, 0x9004].contains(&tag) || (tag == 0 && d != 2) {
                return Ok(Stats::default());
            }
            let v = if be { Val::U32(vec![0x01020304]) } else { Val::s("a text of the entry") };
            let t = tiff(&placed(en(tag, v), d), &Lay::new(be));
            check_tiff(format!("tags:{tag:#x}:{d}:{be}"), t, &[Src::Mem])
        },
        move |i| {
            let (tag, d, be) = dec(i);
            format!("tag {tag:#x} in directory {d} big-endian {be}")
        },
    )
}

fn texts(t: Tier) -> Space {
    let alpha: &'static [u8] = &[0, b'A', b' ', 0xc3, 0xa9, 0xff, 0x0a];
    let maxlen = t.pick(5u32, 7);
    let a = alpha.len() as u64;
    let total: u64 = (1..=maxlen).map(|l| a.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 1;
        while i >= a.pow(l) {
            i -= a.pow(l);
            l += 1;
        }
        (0..l)
            .map(|_| {
                let c = alpha[(i % a) as usize];
                i /= a;
                c
            })
            .collect::<Vec<u8>>()
    };
    Space::new(
        "texts",
        format!("every byte string of length 1..={maxlen} over {{NUL, A, space, C3, A9, FF, LF}} as a text value: up to the first NUL, UTF-8 if valid, else byte by byte"),
        total,
        move |i| {
            let s = dec(i);
            let t = tiff(&placed(en(0x010e, Val::Ascii(s.clone())), 0), &Lay::new(false));
            check_tiff(format!("texts:{s:02x?}"), t, &[Src::Mem])
        },
        move |i| format!("{:02x?}", dec(i)),
    )
}

/// trees with at most 7 (8) blocks whose blocks are put in every order
fn small_trees() -> Vec<Dir> {
    let m = || en(0x010f, Val::s("ACME Corp"));
    let r = || en(0x011a, Val::URat(vec![(72, 1)]));
    let s = || en(0x0112, Val::U16(vec![6]));
    vec![
        dir(vec![m(), s(), r()]),
        dir(vec![m(), sub(EXIF_PTR, dir(vec![en(0x829a, Val::URat(vec![(1, 250)])), en(0xa002, Val::U32(vec![4032]))])), r()]),
        dir(vec![s(), sub(GPS_PTR, dir(vec![en(0, Val::U8(vec![2, 3, 0, 0])), en(2, Val::URat(vec![(43, 1), (28, 1), (176, 100)]))])), m()]).with_next(dir(vec![s(), r()])),
        dir(vec![sub(EXIF_PTR, dir(vec![en(0xa001, Val::U16(vec![1])), en(0x927c, Val::Undef(vec![7; 11]))])), sub(GPS_PTR, dir(vec![en(0x1d, Val::s("2020:01:01"))]))]).with_next(dir(vec![m()])),
        dir(vec![s()]).with_next(dir(vec![m(), sub(EXIF_PTR, dir(vec![en(0xa002, Val::U32(vec![160]))]))]).with_next(dir(vec![r()]))),
        dir(vec![sub(EXIF_PTR, dir(vec![m(), sub(GPS_PTR, dir(vec![en(1, Val::s("N")), en(0x12, Val::s("WGS-84"))])), s()])), r()]),
    ]
}
fn layouts(t: Tier) -> Space {
    let trees = small_trees();
    let mut cases: Vec<(usize, u64)> = vec![];
    for (k, d) in trees.iter().enumerate() {
        let n = n_blocks(d);
        assert!(n <= 7, "harness: tree {k} has {n} blocks");
        for p in 0..fact(n) {
            cases.push((k, p));
        }
    }
    let gaps: &'static [usize] = t.pick(&[0, 3], &[0, 1, 2, 5, 64, 9000]);
    let n = cases.len() as u64 * gaps.len() as u64 * 4;
    let (trees, cases) = (Arc::new(trees), Arc::new(cases));
    let (t1, c1) = (trees.clone(), cases.clone());
    let dec = move |i: u64, c: &[(usize, u64)]| {
        let mut m = Mix(i);
        let be = m.b();
        let align = m.b();
        let gap = *m.of(gaps);
        let (k, p) = *m.of(c);
        (k, p, gap, align, be)
    };
    Space::new(
        "layouts",
        format!("6 directory trees (values, nested and chained directories; up to 7 blocks) with their directories and out-of-line values in every order x gaps {gaps:?} x aligned/unaligned x byte order, from memory and streamed"),
        n,
        move |i| {
            let (k, p, gap, align, be) = dec(i, &c1);
            let lay = Lay { gap, align, ..Lay::new(be).order(Order::Perm(p)) };
            let t = tiff(&t1[k], &lay);
            let srcs: &[Src] = if gap > 1000 { &[Src::Mem, Src::Seek, Src::ANoSeek] } else { &[Src::Mem, Src::NoSeek] };
            check_tiff(format!("layouts:{k}:{p}:{gap}:{align}:{be}"), t, srcs)
        },
        move |i| {
            let (k, p, gap, align, be) = dec(i, &cases);
            format!("tree {k}, blocks in permutation {p}, gap {gap}, aligned {align}, big-endian {be}")
        },
    )
}

/// Every tree of main / Exif / GPS / thumbnail directories with few entries each.
fn shape(mut m: Mix, maxn: u64) -> (Dir, Order, bool) {
    let be = m.b();
    let order = m.of(&ORDERS).clone();
    let mk = |n: usize, base: u16, salt: usize| -> Vec<En> {
        (0..n)
            .map(|i| {
                let tag = base + i as u16;
                match (i + salt) % 3 {
                    0 => en(tag, Val::U16(vec![tag])),
                    1 => en(tag, Val::s("some text")),
                    _ => en(tag, Val::URat(vec![(i as u32, 7)])),
                }
            })
            .collect()
    };
    let n0 = m.d(maxn);
    let mut root = mk(n0, 0x0100, 0);
    // Exif directory: absent, or with n entries, holding GPS, in front / middle / end
    let exif = m.d(maxn + 1);
    let gps = m.d(maxn + 1);
    let gps_in = m.d(3); // in main, in Exif, in thumbnail
    let pos = m.d(3);
    let thumb = m.d(maxn + 1);
    let third = m.d(2);
    let gps_en = (gps > 0).then(|| sub(GPS_PTR, dir(mk(gps - 1, 1, 1))));
    let put = |v: &mut Vec<En>, e: En| {
        let at = match pos {
            0 => 0,
            1 => v.len() / 2,
            _ => v.len(),
        };
        v.insert(at, e)
    };
    let mut gps_en = gps_en;
    if exif > 0 {
        let mut v = mk(exif - 1, 0xa001, 2);
        if gps_in == 1 {
            if let Some(g) = gps_en.take() {
                put(&mut v, g)
            }
        }
        put(&mut root, sub(EXIF_PTR, dir(v)));
    }
    if gps_in != 2 || thumb == 0 {
        if let Some(g) = gps_en.take() {
            put(&mut root, g)
        }
    }
    let mut d = dir(root);
    if thumb > 0 {
        let mut v = mk(thumb - 1, 0x0100, 1);
        if let Some(g) = gps_en.take() {
            put(&mut v, g)
        }
        let mut th = dir(v);
        if third == 1 {
            th = th.with_next(dir(mk(1, 0x0103, 0)));
        }
        d = d.with_next(th);
    }
    (d, order, be)
}
fn shapes(t: Tier) -> Space {
    let maxn = t.pick(3u64, 4);
    let n = 2 * 6 * maxn * (maxn + 1) * (maxn + 1) * 3 * 3 * (maxn + 1) * 2;
    Space::new(
        "shapes",
        format!("every combination of directories (main, Exif, GPS in main/Exif/thumbnail, thumbnail, a third one) with 0..{maxn} entries each, pointer first/middle/last, 6 physical orders, both byte orders"),
        n,
        move |i| {
            let (d, o, be) = shape(Mix(i), maxn);
            let t = tiff(&d, &Lay { tail: 4, ..Lay::new(be).order(o) });
            check_tiff(format!("shapes:{i}"), t, &[Src::Mem, Src::Seek])
        },
        move |i| {
            let (d, o, be) = shape(Mix(i), maxn);
            trunc(&format!("{d:?} {o:?} big-endian {be}"), 500)
        },
    )
}
/// entry order and duplicates: first occurrence counts
fn dups() -> Space {
    // sequences of length 4 over {A1, A2, B1, sub with A3, sub with B2}: value differs by position
    let n = 6u64.pow(4) * 2;
    let mk = |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let mut v = vec![];
        for p in 0..4u32 {
            let x = Val::U32(vec![1000 + p]);
            v.push(match m.d(6) {
                0 => en(0x0110, x),
                1 => en(0x0112, x),
                2 => en(0x0110, Val::s("text instead")),
                3 => sub(EXIF_PTR, dir(vec![en(0x0110, x), en(0xa002, Val::U32(vec![p]))])),
                4 => sub(GPS_PTR, dir(vec![en(0x0112, x.clone()), en(0x0110, x)])),
                _ => en(0x9204, Val::IRat(vec![(p as i32, -1)])),
            });
        }
        (dir(v).with_next(dir(vec![en(0x0110, Val::s("thumb")), en(0x0110, Val::s("thumb2"))])), be)
    };
    Space::new(
        "order",
        "all sequences of 4 entries over a 6-letter alphabet with repeated tags and repeated sub-directories (each at its own offset): file order, the first occurrence of a tag per directory index",
        n,
        move |i| {
            let (d, be) = mk(i);
            check_tiff(format!("order:{i}"), tiff(&d, &Lay { tail: 60, ..Lay::new(be) }), &[Src::Mem, Src::Seek])
        },
        move |i| trunc(&format!("{:?}", mk(i)), 500),
    )
}
/// chains of directories that share tags: the directory index keeps them apart
fn chains(t: Tier) -> Space {
    const W: u64 = 9;
    let depth = t.pick(4u32, 5);
    let total: u64 = (1..=depth).map(|l| W.pow(l)).sum();
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let rev = m.b();
        let mut i = m.0;
        let mut l = 1;
        while i >= W.pow(l) {
            i -= W.pow(l);
            l += 1;
        }
        let mut out: Option<Dir> = None;
        for p in (0..l).rev() {
            let w = i / W.pow(p) % W;
            let a = |k: u32| en(0x010f, Val::s(&format!("make {p} {k}")));
            let b = |k: u32| en(0x0112, Val::U16(vec![(p * 16 + k) as u16]));
            let v = match w {
                0 => vec![],
                1 => vec![a(0)],
                2 => vec![b(0)],
                3 => vec![a(0), b(1)],
                4 => vec![b(0), a(1)],
                5 => vec![a(0), a(1)],
                6 => vec![a(0), sub(EXIF_PTR, dir(vec![b(1), a(2)])), b(3)],
                7 => vec![sub(GPS_PTR, dir(vec![en(1, Val::s("N"))])), sub(EXIF_PTR, dir(vec![b(1)])), a(1)],
                _ => vec![sub(EXIF_PTR, dir(vec![sub(GPS_PTR, dir(vec![en(0x12, Val::s("WGS-84")), a(1)])), a(2)]))],
            };
            let d = dir(v);
            out = Some(match out {
                Some(n) => d.with_next(n),
                None => d,
            });
        }
        (out.unwrap(), be, rev)
    };
    Space::new(
        "chains",
        format!("every chain of 1..={depth} directories over 9 directory contents that share their tags and hold sub-directories of their own x byte order x front-to-back and back-to-front placement"),
        total * 4,
        move |i| {
            let (d, be, rev) = mk(i);
            let lay = Lay { tail: 130, ..Lay::new(be).order(if rev { ORDERS[1].clone() } else { ORDERS[0].clone() }) };
            check_tiff(format!("chains:{i}"), tiff(&d, &lay), &[Src::Mem, Src::Seek])
        },
        move |i| trunc(&format!("{:?}", mk(i)), 700),
    )
}

fn sizes(t: Tier) -> Space {
    let ns: Vec<usize> = match t {
        Tier::Quick => (0..=80).chain([127, 128, 255, 256, 257, 682, 683, 1000, 1365, 1366, 3000, 65535]).collect(),
        Tier::Thorough => (0..=700).chain([1000, 1364, 1365, 1366, 2000, 4095, 4096, 5461, 20000, 65534, 65535]).collect(),
    };
    let n2 = ns.clone();
    Space::new(
        "sizes",
        "directories of n entries (every n of the stated list), main and Exif directory, from memory and streamed",
        ns.len() as u64 * 4,
        move |i| {
            let mut m = Mix(i);
            let n = *m.of(&ns);
            let be = m.b();
            let main = m.b();
            let v: Vec<En> = (0..n)
                .map(|i| {
                    // distinct codes, none with a meaning of its own to the reader
                    let tag = 1 + i as u16;
                    let tag = if [EXIF_PTR, GPS_PTR, 0x0132, 0x9003, 0x9004].contains(&tag) { 0x0001 } else { tag };
                    en(tag, Val::U32(vec![i as u32]))
                })
                .collect();
            let d = if main { dir(v) } else { dir(vec![sub(EXIF_PTR, dir(v)), en(0x0110, Val::s("M"))]) };
            let t = tiff(&d, &Lay { tail: 130, ..Lay::new(be) });
            check_tiff(format!("sizes:{n}:{be}:{main}"), t, &[Src::Mem, Src::Seek, Src::ANoSeek])
        },
        move |i| {
            let mut m = Mix(i);
            format!("{} entries, big-endian {}, main directory {}", m.of(&n2), m.b(), m.b())
        },
    )
}

const LAST: u64 = 8;
/// Values of very many components, last in the file or with others behind.
pub fn large(t: Tier, run: impl Fn(String, Tiff) -> CaseResult + Send + Sync + 'static) -> Space {
    let counts: &'static [usize] = t.pick(&[65_535, 65_536, 65_543][..], &[32_767, 32_768, 65_535, 65_536, 65_537, 65_543, 131_071, 131_072, 131_073, 200_000, 262_149][..]);
    let dec = move |i: u64| {
        let mut m = Mix(i);
        (m.d(FMTS), *m.of(counts), m.b(), m.d(5), m.d(LAST))
    };
    Space::new(
        "large",
        format!("12 formats x {counts:?} components x byte order x 5 directories x each block of the file (so the value as well) last"),
        FMTS * counts.len() as u64 * 2 * 5 * LAST,
        move |i| {
            let (fmt, count, be, d, o) = dec(i);
            let d0 = placed(en(0x927c, val(fmt, count, 2)), d);
            let n = n_blocks(&d0);
            if o > n {
                return Ok(Stats::default());
            }
            // the first one in its own place
            let mut l: Vec<usize> = (0..n).collect();
            if o > 0 {
                let x = l.remove(o - 1);
                l.push(x);
            }
            let t = tiff(&d0, &Lay { tail: 3, ..Lay::new(be) }.order(Order::Listed(l)));
            run(format!("large:{fmt}:{count}:{be}:{d}:{o}"), t)
        },
        move |i| {
            let (fmt, count, be, d, o) = dec(i);
            format!("{count} components of format {} in directory {d}, big-endian {be}, block {o} last", fmt + 1)
        },
    )
}

/// Directories with very many entries ahead of the pointer that leads on.
pub fn crowded(t: Tier, run: impl Fn(String, Tiff) -> CaseResult + Send + Sync + 'static) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=40).chain((44..=704).step_by(12)).chain([255, 256, 257, 1023, 1024, 1365, 2000, 5000, 65_500]).collect(),
        Tier::Thorough => (0..=800).chain([1023, 1024, 1025, 1364, 1365, 1366, 2000, 2047, 2048, 4095, 4096, 5461, 5462, 10_000, 32_767, 32_768, 65_500]).collect(),
    });
    const WAYS: u64 = 7;
    let n2 = ns.clone();
    let dec = move |i: u64| {
        let mut m = Mix(i);
        (m.d(WAYS), m.b(), *m.of(&[0usize, 9000, 40_000]), *m.of(&n2))
    };
    let d2 = dec.clone();
    Space::new(
        "crowded",
        "0 to 65500 entries in the main, Exif or thumbnail directory ahead of the pointer to the Exif or GPS directory, between two of them, or ahead of the link to the next directory x byte order x what is pointed to 0, 9000 or 40000 bytes behind the rest",
        WAYS * 2 * 3 * ns.len() as u64,
        move |i| {
            let (way, be, gap, n) = dec(i);
            let many = || -> Vec<En> { (0..n).map(|k| en(0x9300 + (k % 0x6000) as u16, Val::U16(vec![k as u16]))).collect() };
            let goal = || dir(vec![en(0x9290, Val::s("the end of the way")), en(0x9291, Val::U16(vec![7]))]);
            let and = |mut v: Vec<En>, e: En| {
                v.push(e);
                v
            };
            let d = match way {
                0 => dir(and(many(), sub(EXIF_PTR, goal()))),
                1 => dir(and(many(), sub(GPS_PTR, sample_gps()))),
                2 => dir(many()).with_next(goal()),
                3 => dir(vec![en(0x0110, Val::s("M")), sub(EXIF_PTR, dir(and(many(), sub(GPS_PTR, sample_gps()))))]),
                4 => dir(vec![en(0x0110, Val::s("M"))]).with_next(dir(and(many(), sub(EXIF_PTR, goal())))),
                5 => {
                    let mut v = vec![sub(EXIF_PTR, goal())];
                    v.extend(many());
                    dir(and(v, sub(GPS_PTR, sample_gps())))
                }
                _ => dir(and(many(), sub(EXIF_PTR, dir(and(many(), sub(GPS_PTR, sample_gps())))))).with_next(goal()),
            };
            if way == 6 && n > 20_000 {
                return Ok(Stats::default());
            }
            // the last directory behind the rest, its values ahead of it
            let b = dir_blocks(&d);
            let last = (0..b.len()).rev().find(|k| b[*k]).unwrap();
            let mut l: Vec<usize> = (0..b.len()).filter(|k| *k != last).collect();
            l.push(last);
            let t = tiff(&d, &Lay { order: Order::Listed(l), far: (1, gap), tail: 150, ..Lay::new(be) });
            run(format!("crowded:{way}:{n}:{gap}:{be}"), t)
        },
        move |i| {
            let (way, be, gap, n) = d2(i);
            format!("way {way}, {n} entries, {gap} bytes, big-endian {be}")
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let many = crowded(t, |k, t| check_tiff(k, t, &[Src::Mem, Src::NoSeek]));
    let big = large(t, |k, t| check_tiff(k, t, &[Src::Mem, Src::NoSeek]));
    (
        "exploration",
        vec![values(t), tags(), texts(t), layouts(t), shapes(t), dups(), chains(t), sizes(t), big, many],
        vec![
            "well-formed: pointers are LONG with count 1, sub-directories have no successor, tag 0 only in the GPS directory",
            "signed and floating-point arrays have no representation in the value type and must be reported as unreadable",
        ],
    )
}
