//! C08 — an unreadable entry is reported, and only that entry.
use super::c07::agree;
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::{EntryError, Exif, ExifTag};
use std::sync::Arc;

const OFFS: [u32; 8] = [0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff_fff0, 0x0010_0000, 0x0fff_ffff, 0x00ff_fff9];

/// Ways of making one entry unreadable. `len` is the length of the undamaged file.
/// None: the kind does not apply to this tag.
fn damage(kind: usize, e: &En, len: u32) -> Option<En> {
    let t = e.tag;
    let ptr = t == EXIF_PTR || t == GPS_PTR;
    Some(match kind {
        // unknown formats
        0 => raw(t, 0, 1, 1),
        1 => raw(t, 13, 1, 1),
        2 => raw(t, 0x80, 1, 1),
        3 => raw(t, 0x0200, 1, 0x0102_0304),
        4 => raw(t, 0xffff, 0xffff_ffff, 0xffff_ffff),
        // no values
        k @ 5..=8 => raw(t, [2, 3, 5, 12][k - 5], 0, if ptr { 0 } else { 8 }),
        // value lies outside the data
        k @ 9..=16 if !ptr => raw(t, 5, 1, OFFS[k - 9]),
        17 if !ptr => raw(t, 2, 100, len),
        18 if !ptr => raw(t, 2, len, 8),
        19 if !ptr => raw(t, 2, 200, len - 60),
        20 if !ptr => raw(t, 1, 0xffff_ffff, 8),
        21 if !ptr => raw(t, 5, 0x2000_0000, 8), // count * 8 overflows 32 bits
        22 if !ptr => raw(t, 12, 0x2000_0001, 8), // ... to something small
        23 if !ptr => raw(t, 3, 0x8000_0000, 8),
        24 if !ptr => raw(t, 4, 0x4000_0001, 8),
        25 if !ptr => raw(t, 10, 0xffff_ffff, 0xffff_ffff),
        // no representation
        26 if !ptr => raw(t, 8, 2, 0x0001_0002),
        27 if !ptr => raw(t, 6, 3, 0x0001_0002),
        28 if !ptr => raw(t, 9, 2, 8),
        29 if !ptr => raw(t, 11, 2, 8),
        30 if !ptr => raw(t, 12, 2, 8),
        // bad dates
        k @ 31..=38 if matches!(t, 0x0132 | 0x9003 | 0x9004) => en(
            t,
            Val::s(["2023:13:01 00:00:00", "2023:02:30 00:00:00", "2023:01:01 25:00:00", "    :  :     :  :  ", "garbage", "", "2023-07-09 20:36", "0000:00:00 00:00:00"][k - 31]),
        ),
        39 if matches!(t, 0x0132 | 0x9003 | 0x9004) => en(t, Val::U16(vec![1])),
        // pointers that lead nowhere
        k @ 40..=43 if ptr => raw(t, 4, 1, [OFFS[2], OFFS[0], len, len + 1000][k - 40]),
        44 if ptr => raw(t, 4, 1, len - 1),
        // a pointer back to the main directory
        45 if ptr => En { tag: t, k: Ek::SubRef(0) },
        _ => return None,
    })
}
const KINDS: usize = 46;
fn is_bad_date(kind: usize) -> bool {
    (31..=39).contains(&kind)
}

/// Trees with entries of many kinds; every entry of every directory gets damaged.
fn trees() -> Vec<Dir> {
    let gps = || {
        dir(vec![
            en(0x0001, Val::s("N")),
            en(0x0002, Val::URat(vec![(1, 1), (2, 1), (3, 1)])),
            en(0x0005, Val::U8(vec![0])),
            en(0x001d, Val::s("2020:01:01")),
        ])
    };
    let exif = || {
        dir(vec![
            en(0x829a, Val::URat(vec![(1, 250)])),
            en(0x9003, Val::s("2023:07:09 20:36:33")),
            en(0x9004, Val::s("2023:07:09 20:36:34")),
            en(0x9204, Val::IRat(vec![(-1, 3)])),
            en(0x9286, Val::Undef(b"ASCII\0\0\0hello".to_vec())),
            en(0xa002, Val::U32(vec![4032])),
        ])
    };
    let thumb = || dir(vec![en(0x0103, Val::U16(vec![6])), en(0x0131, Val::s("thumb soft")), en(0x0201, Val::U32(vec![123]))]);
    vec![
        dir(vec![en(0x010f, Val::s("ACME Corp")), en(0x0110, Val::s("M1")), en(0x0112, Val::U16(vec![6])), en(0x0132, Val::s("2023:07:09 20:36:33"))]),
        dir(vec![en(0x010f, Val::s("ACME Corp")), sub(EXIF_PTR, exif()), en(0x0112, Val::U16(vec![6]))]).with_next(thumb()),
        dir(vec![sub(GPS_PTR, gps()), en(0x0112, Val::U16(vec![6])), sub(EXIF_PTR, exif())]),
        dir(vec![en(0x0100, Val::U32(vec![1])), sub(EXIF_PTR, dir(vec![en(0x9003, Val::s("2023:07:09 20:36:33")), sub(GPS_PTR, gps()), en(0xa002, Val::U32(vec![9]))]))])
            .with_next(thumb().with_next(dir(vec![en(0x0103, Val::U16(vec![1])), en(0x013b, Val::s("third artist"))]))),
    ]
}
/// Entries of a tree in depth-first order, as paths.
fn paths(d: &Dir) -> Vec<Vec<usize>> {
    // path element: entry index; usize::MAX = next directory
    fn go(d: &Dir, pre: &[usize], out: &mut Vec<Vec<usize>>) {
        for (i, e) in d.ents.iter().enumerate() {
            let mut p = pre.to_vec();
            p.push(i);
            out.push(p.clone());
            if let Ek::Sub(s) = &e.k {
                go(s, &p, out);
            }
        }
        if let Some(n) = &d.next {
            let mut p = pre.to_vec();
            p.push(usize::MAX);
            go(n, &p, out);
        }
    }
    let mut o = vec![];
    go(d, &[], &mut o);
    o
}
fn entry_mut<'a>(d: &'a mut Dir, p: &[usize]) -> Option<&'a mut En> {
    let (h, r) = p.split_first()?;
    if *h == usize::MAX {
        return entry_mut(d.next.as_deref_mut()?, r);
    }
    let e = d.ents.get_mut(*h)?;
    if r.is_empty() {
        return Some(e);
    }
    match &mut e.k {
        Ek::Sub(s) => entry_mut(s, r),
        _ => None,
    }
}

/// Damage the entries at `hits`; returns the file and what has to come out.
fn damaged(root: &Dir, hits: &[(Vec<usize>, usize)], lay: &Lay) -> Option<(Vec<u8>, Vec<Ent>, Vec<u32>)> {
    let len = tiff(root, lay).bytes.len() as u32;
    let mut d = root.clone();
    let mut bad_dates: Vec<u16> = vec![];
    // deepest first, so that a damaged pointer does not hide the other hit
    let mut hs: Vec<_> = hits.to_vec();
    hs.sort_by_key(|h| std::cmp::Reverse(h.0.len()));
    for (p, k) in &hs {
        let e = entry_mut(&mut d, p)?;
        let x = damage(*k, e, len)?;
        if is_bad_date(*k) {
            bad_dates.push(x.tag);
        }
        *e = x;
    }
    // the file keeps its length: offsets aimed behind the end must stay behind it
    let t0 = tiff(&d, lay);
    let mut l = lay.clone();
    l.tail += (len as usize).saturating_sub(t0.bytes.len());
    let t = tiff(&d, &l);
    if t.bytes.len() > len as usize {
        // a replaced date is longer than the old one: keep the aim
        return None;
    }
    let mut want = t.expect;
    for w in &mut want {
        if matches!(w.code, 0x0132 | 0x9003 | 0x9004) {
            if let Ok(v) = &w.val {
                w.val = if bad_dates.contains(&w.code) {
                    Err(String::new())
                } else {
                    let s: String = v.trim_start_matches("Text(\"").trim_end_matches("\")").into();
                    Ok(date(&s))
                };
            }
        }
    }
    Some((t.bytes, want, t.dir_off))
}
/// debug form of the naive date-time "YYYY:MM:DD hh:mm:ss"
fn date(s: &str) -> String {
    let (d, t) = s.split_once(' ').unwrap_or((s, ""));
    format!("NaiveDateTime({}T{t})", d.replace(':', "-"))
}

/// The damaged entries, and nothing else, are errors - in iteration and collected.
pub fn verify(key: &str, file: Vec<u8>, want: &[Ent], srcs: &[Src]) -> CaseResult {
    let d: Data = Arc::new(file);
    let mut st = Stats::default();
    for &s in srcs {
        if d.len() <= 128 && STREAMS.contains(&s) {
            continue;
        }
        let it = match parse_raw(&mut nom_exif::MediaParser::new(), &d, s, Api::Exif) {
            Raw::Exif(it) => it,
            o => return viol(key, format!("from {s:?}: parse gives {:?}", o.norm())),
        };
        let ex: Exif = it.clone().into();
        let got = exif_out(it);
        if let Err(m) = agree(&got.entries, want) {
            return viol(key, format!("from {s:?}: {m}"));
        }
        // collected form: the error list, and no value for what is damaged
        let errs: Vec<(usize, u16)> = ex.errors().iter().map(|(i, t, _)| (i.as_usize(), t.code())).collect();
        let werr: Vec<(usize, u16)> = want.iter().filter(|e| e.val.is_err()).map(|e| (e.ifd, e.code)).collect();
        let (mut a, mut b) = (errs.clone(), werr.clone());
        a.sort();
        b.sort();
        if a != b {
            return viol(key, format!("from {s:?}: collected errors {errs:?}, damaged are {werr:?}"));
        }
        for w in want {
            let i = nom_exif::IfdIndex::new(w.ifd);
            let g = ex.get_by_code(i, w.code);
            match (&w.val, g) {
                (Ok(v), Some(g)) if *v == format!("{g:?}") => {}
                (Err(_), None) => {}
                _ => return viol(key, format!("from {s:?}: collected {:?} is {g:?}, the file says {:?}", (w.ifd, w.code), w.val)),
            }
            if let Some(t) = ExifTag::from_code(w.code) {
                if ex.get_in(i, t).is_some() != w.val.is_ok() {
                    return viol(key, format!("from {s:?}: look-up of {t} disagrees with {:?}", w.val));
                }
            }
        }
        if ex.iter().count() != want.iter().filter(|e| e.val.is_ok()).count() {
            return viol(key, format!("from {s:?}: collected list holds {} values", ex.iter().count()));
        }
        st.note(true, fp(&got.entries));
    }
    Ok(st)
}

fn single(t: Tier) -> Space {
    let ts = trees();
    let mut slots = vec![];
    for (k, d) in ts.iter().enumerate() {
        for p in paths(d) {
            slots.push((k, p));
        }
    }
    let ts = Arc::new(ts);
    let slots = Arc::new(slots);
    let orders: &'static [Order] = t.pick(&ORDERS[..2], &ORDERS[..]);
    let wraps = 4u64;
    let n = slots.len() as u64 * KINDS as u64 * 2 * orders.len() as u64 * wraps;
    let dec = move |i: u64, slots: &Vec<(usize, Vec<usize>)>| {
        let mut m = Mix(i);
        let wrap = m.d(wraps);
        let o = m.of(orders).clone();
        let be = m.b();
        let k = m.d(KINDS as u64);
        let (t, p) = m.of(slots).clone();
        (t, p, k, be, o, wrap)
    };
    let s2 = slots.clone();
    Space::new(
        "single",
        format!("4 directory trees (main, Exif, GPS nested two ways, thumbnail, third): every entry damaged in each of {KINDS} ways (unknown format, no value, value out of range incl. overflowing counts, unrepresentable shape, bad date, dangling or repeated directory pointer) x {} physical orders x byte order x bare / in JPEG / in PNG / in HEIF", orders.len()),
        n,
        move |i| {
            let (t, p, k, be, o, wrap) = dec(i, &slots);
            let lay = Lay { tail: 90, ..Lay::new(be).order(o) };
            let Some((f, want, _)) = damaged(&ts[t], &[(p.clone(), k)], &lay) else {
                return Ok(Stats::default());
            };
            let len = f.len();
            let f = match wrap {
                0 => f,
                1 => jpeg_with_exif(&f),
                2 => png(&[chunk(b"eXIf", &f)]),
                _ => Heif::new().build(&f),
            };
            let key = format!("single:{t}:{p:?}:{k}:{be}:{wrap}");
            let mut d = ts[t].clone();
            let what = entry_mut(&mut d, &p).and_then(|e| damage(k, e, len as u32).map(|x| (e.tag, x.k)));
            let st = verify(&key, f.clone(), &want, &[Src::Mem, Src::NoSeek])?;
            let Some((tag, Ek::Raw(fmt, count, at))) = what else { return Ok(st) };
            // what the error says is what is wrong with the entry
            let ptr = tag == EXIF_PTR || tag == GPS_PTR;
            let size = count as usize * [1usize, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8].get(fmt as usize).copied().unwrap_or(0);
            let bad = match k {
                0..=4 => EntryError::InvalidShape { format: fmt, count },
                // where a pointer or a date goes wrong is not further specified
                _ if ptr || matches!(tag, 0x0132 | 0x9003 | 0x9004) && !(9..=25).contains(&k) => return Ok(st),
                9..=25 => EntryError::Truncated { needed: size, available: len.saturating_sub(at as usize) },
                _ => EntryError::InvalidShape { format: fmt, count },
            };
            for s in [Src::Mem, Src::NoSeek] {
                let Raw::Exif(it) = parse_raw(&mut nom_exif::MediaParser::new(), &Arc::new(f.clone()), s, Api::Exif) else { continue };
                let ex: Exif = it.into();
                let got = ex.errors().first().map(|e| e.2.clone());
                if got.as_ref() != Some(&bad) {
                    return viol(key, format!("from {s:?}: the entry's error is {got:?}, what is wrong is {bad:?}"));
                }
            }
            Ok(st)
        },
        move |i| {
            let (t, p, k, be, o, wrap) = dec(i, &s2);
            format!("tree {t}, entry {p:?}, damage kind {k}, big-endian {be}, {o:?}, wrap {wrap}")
        },
    )
}
/// every subset of the entries of a tree damaged, with a kind per tag parity
fn subsets(t: Tier) -> Space {
    let ts = trees();
    let base: Vec<(usize, Vec<Vec<usize>>)> = ts.iter().enumerate().map(|(k, d)| (k, paths(d))).collect();
    let mut offs = vec![];
    let mut n = 0u64;
    let cap = t.pick(12, 17);
    for b in &base {
        offs.push(n);
        n += 1u64 << b.1.len().min(cap);
    }
    let ts = Arc::new(ts);
    let kinds: [[usize; 2]; 4] = [[0, 9], [18, 5], [21, 26], [4, 20]];
    let nk = t.pick(2u64, 4);
    Space::new(
        "subsets",
        format!("the 4 trees with every subset of their (first {cap}) entries damaged at once, {nk} pairs of damage kinds, alternating over the entries, both byte orders"),
        n * nk * 2,
        move |i| {
            let mut m = Mix(i);
            let be = m.b();
            let ks = kinds[m.d(nk)];
            let r = m.0;
            let k = offs.iter().rposition(|o| *o <= r).unwrap();
            let mask = r - offs[k];
            let mut hits = vec![];
            for (j, p) in base[k].1.iter().enumerate().take(cap) {
                if mask >> j & 1 == 1 {
                    let e = entry_mut(&mut ts[k].clone(), p).map(|e| e.tag).unwrap();
                    let ptr = e == EXIF_PTR || e == GPS_PTR;
                    // entries below a damaged pointer are out of reach
                    if hits.iter().any(|(h, _): &(Vec<usize>, usize)| p.len() > h.len() && p.starts_with(h)) {
                        continue;
                    }
                    hits.push((p.clone(), if ptr { 40 } else { ks[j % 2] }));
                }
            }
            let lay = Lay { tail: 90, ..Lay::new(be) };
            let Some((f, want, _)) = damaged(&ts[k], &hits, &lay) else {
                return Ok(Stats::default());
            };
            verify(&format!("subsets:{i}"), f, &want, &[Src::Mem])
        },
        move |i| format!("subset {i}"),
    )
}
/// every pair of (entry, kind)
fn pairs(t: Tier) -> Space {
    let d = Arc::new(trees()[2].clone());
    let ps = Arc::new(paths(&d));
    let n1 = (ps.len() * KINDS) as u64;
    let _ = t;
    let (d2, p2) = (d.clone(), ps.clone());
    let _ = (&d2, &p2);
    Space::new(
        "pairs",
        format!("main + GPS + Exif tree: every two entries damaged in every two of {KINDS} ways"),
        n1 * n1,
        move |i| {
            let mut m = Mix(i);
            let (a, b) = (m.d(n1), m.d(n1));
            let (pa, ka) = (&ps[a / KINDS], a % KINDS);
            let (pb, kb) = (&ps[b / KINDS], b % KINDS);
            if a / KINDS >= b / KINDS || pb.starts_with(pa) {
                return Ok(Stats::default());
            }
            let Some((f, want, _)) = damaged(&d, &[(pa.clone(), ka), (pb.clone(), kb)], &Lay { tail: 90, ..Lay::new(false) }) else {
                return Ok(Stats::default());
            };
            verify(&format!("pairs:{i}"), f, &want, &[Src::Mem])
        },
        move |i| {
            let mut m = Mix(i);
            let (a, b) = (m.d(n1), m.d(n1));
            format!("entries {} and {} damaged in ways {} and {}", a / KINDS, b / KINDS, a % KINDS, b % KINDS)
        },
    )
}
/// pointer entries repeated: the second visit is an error, everything else stands
fn repeats() -> Space {
    // sequences of 4 over {plain A, plain B, Exif pointer (first: directory, later: again), GPS pointer, pointer to main}
    let n = 5u64.pow(5) * 2;
    let mk = |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let mut v = vec![];
        let (mut ex, mut gp) = (None::<usize>, None::<usize>);
        let mut next_dir = 1;
        let mut tag = 0x0100;
        for _ in 0..5 {
            tag += 1;
            v.push(match m.d(5) {
                0 => en(tag, Val::U16(vec![tag])),
                1 => en(tag, Val::s("some longer text")),
                2 => match ex {
                    None => {
                        ex = Some(next_dir);
                        next_dir += 1;
                        sub(EXIF_PTR, dir(vec![en(0xa002, Val::U32(vec![1])), en(0x829a, Val::URat(vec![(1, 2)]))]))
                    }
                    // same directory again, under another pointer tag of the same kind
                    Some(k) => En { tag: EXIF_PTR, k: Ek::SubRef(k) },
                },
                3 => match gp {
                    None => {
                        gp = Some(next_dir);
                        next_dir += 1;
                        sub(GPS_PTR, dir(vec![en(0x0001, Val::s("N")), en(0x0012, Val::s("WGS-84"))]))
                    }
                    Some(k) => En { tag: GPS_PTR, k: Ek::SubRef(k) },
                },
                _ => En { tag: if i % 2 == 0 { EXIF_PTR } else { GPS_PTR }, k: Ek::SubRef(0) },
            });
        }
        (dir(v), be)
    };
    Space::new(
        "repeats",
        "every sequence of 5 entries over {value, text, Exif pointer, GPS pointer, pointer back to the main directory}: the first visit of a directory delivers it, every further one is an error at that entry, all other entries stand",
        n,
        move |i| {
            let (d, be) = mk(i);
            let t = tiff(&d, &Lay { tail: 60, ..Lay::new(be) });
            let dt: Data = Arc::new(t.bytes.clone());
            // what must come out: every value entry once, in order
            let Out::Exif(e) = parse(&dt, Src::Mem, Api::Exif) else {
                return viol(format!("repeats:{i}"), "parse fails");
            };
            let good = |v: &[Ent]| -> Vec<Ent> { v.iter().filter(|e| e.val.is_ok()).cloned().collect() };
            // a pointer tag that is first seen as a repeat is followed by the real one later:
            // compare values other than pointers, then the errors
            let plain = |v: Vec<Ent>| -> Vec<Ent> { v.into_iter().filter(|e| e.code != EXIF_PTR && e.code != GPS_PTR).collect() };
            let (g, w) = (plain(good(&e.entries)), plain(good(&t.expect)));
            if g != w {
                return viol(format!("repeats:{i}"), diff_entries(&g, &w));
            }
            fn count(d: &Dir) -> usize {
                d.ents.iter().map(|e| match &e.k { Ek::SubRef(_) => 1, Ek::Sub(s) => count(s), _ => 0 }).sum()
            }
            let errs = e.entries.iter().filter(|e| e.val.is_err()).count();
            if errs != count(&d) {
                return viol(format!("repeats:{i}"), format!("{errs} errors for {} repeated pointers: {:?}", count(&d), e.entries));
            }
            Ok(Stats::one(true, fp(&e.entries)))
        },
        move |i| trunc(&format!("{:?}", mk(i)), 500),
    )
}
/// Damaged and good entries of the same code side by side.
fn twins(t: Tier) -> Space {
    const K: u64 = 8;
    let len = t.pick(4usize, 5);
    // None: damaged
    fn sym(k: usize, at: usize) -> (En, Option<String>) {
        let v = |tag, v: Val, s: String| (en(tag, v), Some(s));
        match k {
            0 => v(0x010f, Val::s(&format!("text {at}")), format!("Text(\"text {at}\")")),
            1 => v(0x010f, Val::U16(vec![at as u16 + 1]), format!("U16({})", at + 1)),
            2 => (raw(0x010f, 2, 99, 0x00ff_ff00), None),
            3 => (raw(0x010f, 77, 1, at as u32), None),
            4 => v(0xc0de, Val::U32(vec![at as u32 + 70_000]), format!("U32({})", at + 70_000)),
            5 => (raw(0xc0de, 5, 9, 0x7fff_ff00), None),
            6 => (raw(0x0110, 2, 99, 0x00ff_ff00), None),
            _ => v(0x0110, Val::s("model"), "Text(\"model\")".into()),
        }
    }
    let case = move |i: u64| {
        let mut m = Mix(i);
        let place = m.d(3);
        (place, (0..len).map(|_| m.d(K)).collect::<Vec<usize>>())
    };
    Space::new(
        "twins",
        format!("every sequence of {len} entries out of 8 (two good values and two kinds of damage of one tag, a good and a damaged entry of another tag and of an unknown code) in the main directory, the Exif directory or the thumbnail directory: every damaged entry is an error at its place, the first good entry of each code is delivered whatever damaged ones surround it"),
        3 * K.pow(len as u32),
        move |i| {
            let (place, seq) = case(i);
            let mut es = vec![];
            let mut want = vec![];
            let mut seen: Vec<u16> = vec![];
            let ifd = usize::from(place == 2);
            for (at, k) in seq.iter().enumerate() {
                let (e, v) = sym(*k, at);
                let code = e.tag;
                es.push(e);
                match v {
                    None => want.push(Ent { ifd, code, val: Err(String::new()) }),
                    Some(s) if !seen.contains(&code) => {
                        seen.push(code);
                        want.push(Ent { ifd, code, val: Ok(s) });
                    }
                    _ => {}
                }
            }
            let d = match place {
                0 => dir(es),
                1 => dir(vec![sub(EXIF_PTR, dir(es))]),
                _ => dir(vec![]).with_next(dir(es)),
            };
            let key = format!("twins:{place}:{seq:?}");
            let f: Data = Arc::new(tiff(&d, &Lay { tail: 150, ..Lay::new(i % 2 == 0) }).bytes);
            let it = match parse_raw(&mut nom_exif::MediaParser::new(), &f, Src::Mem, Api::Exif) {
                Raw::Exif(it) => it,
                o => return viol(key, format!("{:?}", o.norm())),
            };
            let ex: Exif = it.clone().into();
            let mut got = exif_out(it).entries;
            // the pointer itself is an entry, too
            got.retain(|e| e.code != EXIF_PTR);
            if let Err(m) = agree(&got, &want) {
                return viol(key, m);
            }
            if ex.errors().len() != want.iter().filter(|w| w.val.is_err()).count() {
                return viol(key, format!("collected errors: {:?}", ex.errors()));
            }
            for w in want.iter().filter(|w| w.val.is_ok()) {
                let g = ex.get_by_code(nom_exif::IfdIndex::new(w.ifd), w.code).map(|v| format!("{v:?}"));
                if g.as_ref() != w.val.as_ref().ok() {
                    return viol(key, format!("collected {:#x} is {g:?}", w.code));
                }
            }
            Ok(Stats::one(want.iter().any(|w| w.val.is_err()), fp(&got)))
        },
        move |i| format!("{:?}", case(i)),
    )
}

/// CR3: damage in one block leaves the other blocks alone
fn blocks() -> Space {
    let d1 = dir(vec![en(0x010f, Val::s("Canon Inc")), en(0x0112, Val::U16(vec![6])), en(0x013b, Val::s("artist name"))]);
    let d2 = dir(vec![en(0x829a, Val::URat(vec![(1, 8)])), en(0xa002, Val::U32(vec![6000])), en(0xa003, Val::U32(vec![4000]))]);
    let n = 6 * KINDS as u64 * 2;
    Space::new(
        "blocks",
        "CR3 with two metadata blocks: every entry of either damaged in every way, all other entries of both blocks stand",
        n,
        move |i| {
            let mut m = Mix(i);
            let be = m.b();
            let k = m.d(KINDS as u64);
            let s = m.d(6);
            let lay = Lay { tail: 90, ..Lay::new(be) };
            let (a, b) = if s < 3 {
                (damaged(&d1, &[(vec![s], k)], &lay), damaged(&d2, &[], &lay))
            } else {
                (damaged(&d1, &[], &lay), damaged(&d2, &[(vec![s - 3], k)], &lay))
            };
            let (Some(a), Some(b)) = (a, b) else {
                return Ok(Stats::default());
            };
            let f = Cr3::new(vec![(*b"CMT1", a.0), (*b"CMT2", b.0)]).build();
            let want: Vec<Ent> = a.1.into_iter().chain(b.1).collect();
            verify(&format!("blocks:{i}"), f, &want, &[Src::Mem, Src::Seek])
        },
        move |i| format!("block case {i}"),
    )
}

/// Very many damaged entries in one directory.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=40).chain((45..=300).step_by(15)).chain([255, 256, 257, 512, 1000, 1025, 4096]).collect(),
        Tier::Thorough => (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10_000]).collect(),
    });
    const WAYS: u64 = 5;
    const HOW: [usize; 9] = [0, 4, 5, 9, 11, 18, 20, 26, 28];
    let n2 = ns.clone();
    Space::new(
        "crowded",
        "0 to 4096 (thorough 10000) damaged entries, all of one of 9 kinds or alternating with good ones, in the main, Exif, GPS or thumbnail directory ahead of good entries, or ahead of the pointer to the Exif directory: each of them is reported, and the good ones stand",
        WAYS * (HOW.len() as u64 + 1) * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (way, how, n) = (m.d(WAYS), m.d(HOW.len() as u64 + 1), *m.of(&ns));
            let bad = || -> Vec<En> {
                (0..n)
                    .map(|k| {
                        let e = en(0x9300 + k as u16, Val::U16(vec![k as u16]));
                        if how == HOW.len() && k % 3 == 0 {
                            return e;
                        }
                        damage(HOW[if how == HOW.len() { k % how } else { how }], &e, 0x10_0000).unwrap()
                    })
                    .collect()
            };
            let good = || vec![en(0x9290, Val::s("the end of it")), en(0x9291, Val::U16(vec![7]))];
            let and = |mut v: Vec<En>, w: Vec<En>| {
                v.extend(w);
                dir(v)
            };
            let d = match way {
                0 => and(bad(), good()),
                1 => and(good(), vec![sub(EXIF_PTR, and(bad(), good()))]),
                2 => and(vec![sub(GPS_PTR, and(bad(), vec![en(1, Val::s("N"))]))], good()),
                3 => and(vec![], good()).with_next(and(bad(), good())),
                _ => and(bad(), vec![sub(EXIF_PTR, and(good(), vec![])), en(0x0112, Val::U16(vec![6]))]),
            };
            let t = tiff(&d, &Lay { tail: 60, ..Lay::new(i % 2 == 0) });
            verify(&format!("crowded:{way}:{how}:{n}"), t.bytes, &t.expect, &[Src::Mem, Src::NoSeek])
        },
        move |i| {
            let mut m = Mix(i);
            format!("way {}, kind {}, {} entries", m.d(WAYS), m.d(HOW.len() as u64 + 1), m.of(&n2))
        },
    )
}

/// Directories within directories within directories.
fn deep(t: Tier) -> Space {
    let most = t.pick(20usize, 40);
    const SHAPES: u64 = 5;
    // the tags of level `l`
    let tag = |l: usize, k: usize| 0x9300 + 16 * l as u16 + k as u16;
    let level = |code: u16| (code as usize - 0x9300) / 16;
    let build = move |shape: usize, ptr: usize, levels: usize| {
        let mut d: Option<Dir> = None;
        for l in (0..levels).rev() {
            let val = |k: usize| match (l + k) % 3 {
                0 => en(tag(l, k), Val::U16(vec![tag(l, k)])),
                1 => en(tag(l, k), Val::s(&format!("text {k} of level {l}"))),
                _ => en(tag(l, k), Val::URat(vec![(l as u32 + 1, k as u32 + 1)])),
            };
            let leaf = |k: usize| sub(GPS_PTR, dir(vec![val(k)]));
            let p = if ptr == 0 || ptr == 2 && l % 2 == 0 { EXIF_PTR } else { GPS_PTR };
            let inner = d.take().map(|d| sub(p, d));
            let mut v = vec![];
            match shape {
                // pointer last, first, in the middle, next to directories without children
                0 => {
                    v.push(val(0));
                    v.extend(inner);
                }
                1 => {
                    v.extend(inner);
                    v.extend([val(0), val(1)]);
                }
                2 => {
                    v.push(val(0));
                    v.extend(inner);
                    v.extend([val(1), val(2)]);
                }
                3 => {
                    v.extend([leaf(0), val(1)]);
                    v.extend(inner);
                    v.extend([leaf(2), val(3)]);
                }
                _ => {
                    v.extend(inner);
                    v.extend((0..9).map(leaf));
                    v.push(val(9));
                }
            }
            d = Some(dir(v));
        }
        d.unwrap().with_next(dir(vec![en(0x0112, Val::U16(vec![6])), en(0x010f, Val::s("behind all of it"))]))
    };
    Space::new(
        "deep",
        format!("directories nested 1 to {most} levels deep, by Exif pointers, GPS pointers or both in turn x 5 arrangements of the values and of directories without children around each pointer x 3 physical orders x byte order x from memory, seekable and not: at least four levels are entered, everything in the levels entered is delivered in file order, also behind the pointer that is not followed, that pointer is an error, and the next directory comes after it"),
        most as u64 * SHAPES * 3 * 3 * 2,
        move |i| {
            let mut m = Mix(i);
            let (be, shape, ptr, o) = (m.b(), m.d(SHAPES), m.d(3), m.d(3));
            let levels = 1 + m.0 as usize;
            let key = format!("deep:{shape}:{ptr}:{o}:{be}:{levels}");
            let order = [Order::Natural, Order::Reversed, Order::DirsThenVals][o].clone();
            let t = tiff(&build(shape, ptr, levels), &Lay { tail: 150, ..Lay::new(be).order(order) });
            let dt: Data = Arc::new(t.bytes.clone());
            let mut reached = None;
            let mut st = Stats::default();
            for src in [Src::Mem, Src::Seek, Src::NoSeek] {
                let it = match parse_raw(&mut nom_exif::MediaParser::new(), &dt, src, Api::Exif) {
                    Raw::Exif(it) => it,
                    o => return viol(key, format!("{src:?}: {:?}", o.norm())),
                };
                let ex: Exif = it.clone().into();
                let got = exif_out(it).entries;
                let ptrs = |e: &&Ent| e.code == EXIF_PTR || e.code == GPS_PTR;
                let errs = got.iter().filter(|e| e.val.is_err()).count();
                if let Some(e) = got.iter().find(|e| e.val.is_err() && !ptrs(e)) {
                    return viol(key, format!("{src:?}: {e:?}"));
                }
                let vals: Vec<Ent> = got.iter().filter(|e| !ptrs(e)).cloned().collect();
                let k = vals.iter().filter(|e| e.ifd == 0).map(|e| level(e.code) + 1).max().unwrap_or(0);
                if k < levels.min(4) || *reached.get_or_insert(k) != k {
                    return viol(key, format!("{src:?}: {k} of {levels} levels"));
                }
                // directories without children that hang off the deepest level entered are one level further down
                let leaves: Vec<usize> = if shape == 3 { vec![0, 2] } else if shape == 4 { (0..9).collect() } else { vec![] };
                let full: Vec<Ent> = t.expect.iter().filter(|e| !ptrs(e) && (e.ifd == 1 || level(e.code) < k)).cloned().collect();
                let cut: Vec<Ent> = full.iter().filter(|e| e.ifd == 1 || level(e.code) + 1 < k || !leaves.contains(&(e.code as usize % 16))).cloned().collect();
                let deeper = usize::from(levels > k);
                let want = if errs == deeper { &full } else { &cut };
                if vals != *want {
                    return viol(key, format!("{src:?}: {}", diff_entries(&vals, want)));
                }
                if errs != deeper && errs != deeper + leaves.len() {
                    return viol(key, format!("{src:?}: {errs} errors, {k} of {levels} levels"));
                }
                if ex.errors().len() != errs {
                    return viol(key, format!("{src:?}: collected errors {:?}", ex.errors()));
                }
                for w in want {
                    let g = ex.get_by_code(nom_exif::IfdIndex::new(w.ifd), w.code).map(|v| format!("{v:?}"));
                    if g.as_ref() != w.val.as_ref().ok() {
                        return viol(key, format!("{src:?}: collected {:#x} is {g:?}", w.code));
                    }
                }
                st.note(deeper > 0, fp(&vals));
            }
            Ok(st)
        },
        |i| format!("deep case {i}"),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let _ = tiff_le;
    (
        "exploration",
        vec![single(t), subsets(t), pairs(t), repeats(), twins(t), crowded(t), deep(t), blocks()],
        vec!["except in \"twins\", tags are unique within a directory; tag 0 outside the GPS directory ends the directory (padding)"],
    )
}
