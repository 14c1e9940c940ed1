//! C10 — PNG: all text chunks and the best EXIF source, wherever they are.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::*;
use std::sync::Arc;

/// A small tree whose values name its source.
pub fn mini(id: u16, be: bool) -> Tiff {
    let d = dir(vec![
        en(0x010f, Val::s(&format!("maker of source {id}"))),
        en(0x0112, Val::U16(vec![id])),
        sub(EXIF_PTR, dir(vec![en(0x829a, Val::URat(vec![(1, 100 + id as u32)]))])),
    ]);
    tiff(&d, &Lay::new(be))
}

#[derive(Clone, Debug)]
struct Ck {
    bytes: Vec<u8>,
    /// key, value, if the chunk yields a text pair
    text: Option<(String, String)>,
    /// priority and entries, if it is an EXIF source
    exif: Option<(u8, Vec<Ent>)>,
}
fn other(bytes: Vec<u8>) -> Ck {
    Ck { bytes, text: None, exif: None }
}
fn txt(k: &str, v: &[u8]) -> Ck {
    // keys and values are Latin-1
    let mut d: Vec<u8> = k.chars().map(|c| c as u32 as u8).collect();
    d.push(0);
    d.extend_from_slice(v);
    Ck {
        bytes: chunk(b"tEXt", &d),
        text: Some((k.into(), v.iter().map(|b| *b as char).collect())),
        exif: None,
    }
}
fn exif_ck(t: &Tiff) -> Ck {
    Ck { bytes: chunk(b"eXIf", &t.bytes), text: None, exif: Some((3, t.expect.clone())) }
}
fn profile(app1: bool, t: &Tiff, header: bool) -> Ck {
    let data = if header { exif_payload(&t.bytes) } else { t.bytes.clone() };
    let (k, n, p) = if app1 { ("Raw profile type APP1", "app1", 2) } else { ("Raw profile type exif", "exif", 1) };
    let mut c = txt(k, &raw_profile(n, &data));
    c.exif = Some((p, t.expect.clone()));
    c
}

fn alphabet() -> Vec<Ck> {
    let inner = cat(&[text_chunk("Hidden", b"inside data"), chunk(b"eXIf", &mini(9, false).bytes), chunk(b"IEND", &[])]);
    vec![
        exif_ck(&mini(1, false)),
        profile(true, &mini(2, true), true),
        profile(false, &mini(3, false), false),
        txt("Title", b"a title"),
        txt("Title", b"another title"),
        txt("Caf\u{e9}", b"\xe9t\xe9 \xa9 \xff"),
        txt("Comment", b""),
        txt("Software", &filler(9000)),
        // damaged texts and profiles
        other(chunk(b"tEXt", b"no separator here")),
        other(chunk(b"tEXt", b"")),
        txt("Raw profile type APP1", b"\napp1\n   4\nzz00\n"),
        txt("Raw profile type APP1", &raw_profile("app1", b"Exif\0\0this is no TIFF data")),
        txt("Raw profile type exif", b"\nexif\n  12\n49492a000\n"),
        txt("Raw profile type exif", b""),
        // data that is not to be interpreted
        other(chunk(b"IDAT", &inner)),
        other(chunk(b"IDAT", &[filler(17_000), inner.clone()].concat())),
        other(chunk(b"IDAT", &filler(70_000))),
        other(chunk(b"zTXt", b"Title\0\0compressed")),
        other(chunk(b"iTXt", b"Title\0\0\0en\0T\0text")),
        other(chunk(b"tExt", b"Title\0wrong case")),
        other(chunk(b"exIf", &mini(8, false).bytes)),
        other(chunk(b"tIME", &[7, 230, 1, 1, 0, 0, 0])),
        txt("Raw profile type iptc", &raw_profile("iptc", &mini(7, false).bytes)),
        profile(true, &mini(4, false), false),
        profile(false, &mini(5, true), true),
    ]
}

fn expect(cs: &[&Ck]) -> (Option<Vec<Ent>>, Vec<(String, String)>) {
    let texts = cs.iter().filter_map(|c| c.text.clone()).collect();
    let mut best: Option<(u8, Vec<Ent>)> = None;
    for c in cs {
        if let Some((p, e)) = &c.exif {
            if best.as_ref().is_none_or(|b| b.0 < *p) {
                best = Some((*p, e.clone()));
            }
        }
    }
    (best.map(|b| b.1), texts)
}
/// Two sources of one kind: which of them wins is not promised.
fn ambiguous(cs: &[&Ck]) -> bool {
    let mut n = [0; 4];
    for c in cs {
        if let Some((p, _)) = &c.exif {
            n[*p as usize] += 1;
        }
    }
    let top = (1..4).rev().find(|i| n[*i] > 0).unwrap_or(0);
    n[top] > 1
}

/// Parse and compare with what was put in.
fn verify(key: &str, file: Vec<u8>, exif: &Option<Vec<Ent>>, texts: &[(String, String)], srcs: &[Src]) -> CaseResult {
    let d: Data = Arc::new(file);
    let mut st = Stats::default();
    for &s in srcs {
        // EXIF only
        let got = parse(&d, s, Api::Exif);
        st.note(exif.is_some(), got.fp());
        match (exif, &got) {
            (Some(e), Out::Exif(g)) if g.entries == *e => {}
            (None, Out::Err(x)) if x == "ExifNotFound" => {}
            (Some(e), Out::Exif(g)) => return viol(key, format!("{s:?}: EXIF: {}", diff_entries(&g.entries, e))),
            _ => return viol(key, format!("{s:?}: EXIF: got {}, expected {}", trunc(&format!("{got:?}"), 300), if exif.is_some() { "the EXIF put in" } else { "ExifNotFound" })),
        }
        // both
        let m = match parse_raw(&mut MediaParser::new(), &d, s, Api::Meta) {
            Raw::Meta(m) => m,
            Raw::Err(x) => {
                if x == "ExifNotFound" && exif.is_none() && texts.is_empty() {
                    st.note(false, 0);
                    continue;
                }
                return viol(key, format!("{s:?}: metadata: {x}"));
            }
            _ => unreachable!(),
        };
        let e = m.exif.map(exif_out).map(|e| e.entries);
        if e != *exif {
            return viol(key, format!("{s:?}: metadata EXIF: {}", trunc(&format!("{e:?} instead of {exif:?}"), 600)));
        }
        let pairs: Vec<(String, String)> = match &m.format {
            None => vec![],
            Some(ImageFormatMetadata::Png(p)) => {
                let v: Vec<(String, String)> = p.iter().map(|(k, v)| (k.into(), v.into())).collect();
                if p.len() != v.len() || p.is_empty() != v.is_empty() {
                    return viol(key, format!("{s:?}: len {} is_empty {} for {} pairs", p.len(), p.is_empty(), v.len()));
                }
                // every key once
                let mut asked = std::collections::HashSet::new();
                for (k, _) in &v {
                    if !asked.insert(k) {
                        continue;
                    }
                    let want: Vec<&str> = v.iter().filter(|x| x.0 == *k).map(|x| x.1.as_str()).collect();
                    if p.get_all(k).collect::<Vec<_>>() != want || p.get(k) != Some(want[0]) {
                        return viol(key, format!("{s:?}: look-up of {k:?} disagrees with the list"));
                    }
                }
                if p.get("no such key").is_some() || p.get_all("no such key").next().is_some() {
                    return viol(key, format!("{s:?}: look-up of an absent key finds something"));
                }
                v
            }
            _ => return viol(key, "other format metadata"),
        };
        st.note(!texts.is_empty(), fp(&pairs));
        if pairs != texts {
            let i = pairs.iter().zip(texts).position(|(a, b)| a != b).unwrap_or(pairs.len().min(texts.len()));
            return viol(
                key,
                format!("{s:?}: text #{i}: {} instead of {} ({} vs {} pairs)", trunc(&format!("{:?}", pairs.get(i)), 200), trunc(&format!("{:?}", texts.get(i)), 200), pairs.len(), texts.len()),
            );
        }
    }
    Ok(st)
}

const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek];

fn sequences(t: Tier) -> Vec<Space> {
    let ab = Arc::new(alphabet());
    let n = ab.len() as u64;
    let max = t.pick(3, 4);
    let mut out = vec![];
    for len in 0..=max {
        let (a1, a2) = (ab.clone(), ab.clone());
        let pick = move |i: u64| {
            let mut m = Mix(i);
            (0..len).map(|_| m.d(n)).collect::<Vec<_>>()
        };
        out.push(Space::new(
            format!("sequences-{len}"),
            format!("every sequence of {len} of {n} chunks (eXIf, raw profiles good and damaged, text chunks, data chunks below and above the buffer sizes, look-alikes), parsed as EXIF and as metadata; sequences with two top-ranking EXIF sources of one kind are left out"),
            n.pow(len as u32),
            move |i| {
                let cs: Vec<&Ck> = pick(i).iter().map(|k| &a1[*k]).collect();
                if ambiguous(&cs) {
                    return Ok(Stats::default());
                }
                let (e, t) = expect(&cs);
                let mut f = png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>());
                // behind the end marker nothing counts
                f.extend_from_slice(&text_chunk("After", b"the end"));
                f.extend_from_slice(&chunk(b"eXIf", &mini(6, false).bytes));
                verify("sequence", f, &e, &t, if len <= 2 { &SRCS } else { &SOME })
            },
            move |i| {
                let cs = pick(i);
                format!("chunks {:?}", cs.iter().map(|k| { let c = &a2[*k]; (String::from_utf8_lossy(&c.bytes[4..8]).to_string(), c.bytes.len(), c.text.as_ref().map(|t| t.0.clone())) }).collect::<Vec<_>>())
            },
        ));
    }
    out
}

/// Two interesting chunks with data chunks of every critical size before, between, behind.
fn sizes(t: Tier) -> Space {
    let pts = super::c02::shift_points(t);
    let ab = alphabet();
    let sel: Vec<Ck> = [0usize, 1, 2, 3, 7].iter().map(|i| ab[*i].clone()).collect();
    let rule = format!("5 x 5 chunks (eXIf, both profiles, short and long text) with a data chunk of {} sizes in front of the first, of the second, or behind both, as image data or as text", pts.len());
    let len = (pts.len() * 5 * 5 * 3 * 2) as u64;
    let p2 = pts.clone();
    let dec = move |i: u64, pts: &[usize]| {
        let mut m = Mix(i);
        (m.d(5), m.d(5), m.d(3), m.b(), *m.of(pts))
    };
    Space::new(
        "sizes",
        rule,
        len,
        move |i| {
            let (a, b, place, as_text, n) = dec(i, &pts);
            let pad = if as_text { txt("Pad", &filler(n)) } else { other(chunk(b"IDAT", &filler(n))) };
            let mut cs = vec![&sel[a], &sel[b]];
            cs.insert(place, &pad);
            if ambiguous(&cs) {
                return Ok(Stats::default());
            }
            let (e, t) = expect(&cs);
            verify("size", png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>()), &e, &t, &SOME)
        },
        move |i| format!("{:?}", dec(i, &p2)),
    )
}

/// Text up to the documented limit of one chunk and of all together.
fn large(t: Tier) -> Space {
    let ns: Vec<usize> = match t {
        Tier::Quick => vec![65_535, 65_536, 100_000, 1_000_000, (1 << 20) - 3, (1 << 20) - 2, (1 << 20) - 1, 1_300_000],
        Tier::Thorough => vec![4095, 4096, 8191, 8192, 16_384, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000, 131_072, 262_144, 524_288, 1_000_000, (1 << 20) - 4, (1 << 20) - 3, (1 << 20) - 2, (1 << 20) - 1, 1 << 20, 1_300_000, 5_000_000],
    };
    let reps = [1usize, 2, 15];
    let len = (ns.len() * reps.len() * 2) as u64;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        (*m.of(&reps), m.b(), *m.of(&ns))
    };
    let d2 = dec.clone();
    Space::new(
        "large-text",
        "texts of every listed size up to 1 MiB, and larger ones, which are left out, 1, 2 or 15 of them (up to 16 MiB in total), with EXIF in front or behind",
        len,
        move |i| {
            let (r, front, n) = dec(i);
            let v = filler(n);
            let mut t = txt("K", &v);
            if n + 2 > 1 << 20 {
                t.text = None;
            }
            let x = exif_ck(&mini(1, true));
            let last = txt("Last", b"one");
            let mut cs: Vec<&Ck> = vec![&t; r];
            if front {
                cs.insert(0, &x);
            } else {
                cs.push(&x);
            }
            cs.push(&last);
            let (e, t) = expect(&cs);
            verify("large", png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>()), &e, &t, &[Src::Mem, Src::Seek, Src::NoSeek])
        },
        move |i| format!("{:?}", d2(i)),
    )
}

/// Texts that add up to the documented limit of all together, and to a byte
/// more: what fits is all there.
fn limit() -> Space {
    const MAX: usize = 16 << 20;
    Space::new(
        "text-limit",
        "texts with keywords of 1, 7 or 79 characters whose sizes add up to exactly 16 MiB, or a byte less, the last of them large, empty or tiny, with EXIF in front or behind: all of them",
        3 * 2 * 3,
        |i| {
            let mut m = Mix(i);
            let kw = "k".repeat(*m.of(&[1usize, 7, 79]));
            let less = *m.of(&[0usize, 1]);
            let last = *m.of(&[0usize, 1, 500_000]);
            let front = i % 2 == 0;
            // fifteen of a mebibyte (keyword and text), two more, the last one
            let one = (1 << 20) - 2 - kw.len() - 1;
            let full = txt(&kw, &filler(one));
            let mut left = MAX - less - 15 * (kw.len() + one) - (kw.len() + last);
            let mut cs: Vec<Ck> = vec![];
            for _ in 0..15 {
                cs.push(full.clone());
            }
            while left > 0 {
                let n = (left - kw.len()).min(one);
                // never leave less than a keyword behind
                let n = if left - kw.len() - n > 0 && left - kw.len() - n < 2 * kw.len() + 2 { n - 200 } else { n };
                cs.push(txt(&kw, &filler(n)));
                left -= kw.len() + n;
            }
            cs.push(txt(&kw, &filler(last)));
            let x = exif_ck(&mini(1, true));
            if front {
                cs.insert(0, x);
            } else {
                cs.push(x);
            }
            let (e, t) = expect(&cs.iter().collect::<Vec<_>>());
            verify("text-limit", png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>()), &e, &t, &[Src::Mem, Src::NoSeek])
        },
        |i| format!("index {i}"),
    )
}

/// Every way of laying out the hex text of a profile.
fn profiles() -> Space {
    let widths: Vec<usize> = (1..=80).collect();
    let seps: [&str; 4] = ["\n", " \n", "\r\n", "\n "];
    let heads: [(&str, bool); 4] = [("exif", false), ("APP1", true), ("app1", true), ("generic profile", false)];
    let len = (80 * 4 * 4 * 2 * 2 * 2 * 2) as u64;
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let (app1, hdr, upper, be) = (m.b(), m.b(), m.b(), m.b());
        let head = *m.of(&heads);
        let sep = *m.of(&seps);
        let w = *m.of(&widths);
        (app1, hdr, upper, be, head, sep, w)
    };
    let m2 = mk.clone();
    Space::new(
        "profiles",
        "legacy profile under both keys, with and without the Exif header, upper or lower case hex, either byte order, 4 type lines, 4 line ends, 1..80 hex digits a line",
        len,
        move |i| {
            let (app1, hdr, upper, be, head, sep, w) = mk(i);
            let t = mini(3, be);
            let data = if hdr { exif_payload(&t.bytes) } else { t.bytes.clone() };
            let mut s = format!("\n{}\n{:8}\n", head.0, data.len());
            let hex: String = data.iter().map(|b| if upper { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
            for c in hex.as_bytes().chunks(w) {
                s.push_str(std::str::from_utf8(c).unwrap());
                s.push_str(sep);
            }
            let k = if app1 { "Raw profile type APP1" } else { "Raw profile type exif" };
            let c = txt(k, s.as_bytes());
            let texts = vec![c.text.clone().unwrap()];
            verify("profile", png(&[c.bytes]), &Some(t.expect), &texts, &[Src::Mem])
        },
        move |i| format!("{:?}", m2(i)),
    )
}

/// Every byte value in keys and values.
fn characters() -> Space {
    Space::new(
        "characters",
        "every byte value (NUL ends the key) at the start, middle and end of the key and of the value",
        256 * 6,
        move |i| {
            let mut m = Mix(i);
            let pos = m.d(6);
            let b = m.d(256) as u8;
            if b == 0 && pos < 3 {
                return Ok(Stats::default());
            }
            let mut k = b"abcd".to_vec();
            let mut v = b"vwxyz".to_vec();
            match pos {
                0 => k[0] = b,
                1 => k[2] = b,
                2 => k[3] = b,
                3 => v[0] = b,
                4 => v[2] = b,
                _ => v[4] = b,
            }
            let f = png(&[chunk(b"tEXt", &[&k[..], b"\0", &v[..]].concat())]);
            let l1 = |x: &[u8]| x.iter().map(|b| *b as char).collect::<String>();
            verify("character", f, &None, &[(l1(&k), l1(&v))], &[Src::Mem, Src::NoSeek])
        },
        move |i| format!("position {} byte {:#x}", i % 6, i / 6),
    )
}

/// Every number of text chunks.
/// EXIF of hardly any bytes.
fn small() -> Space {
    let make = |i: u64| -> (Tiff, usize, usize, usize) {
        let mut m = Mix(i);
        let (be, n, cut, src, with) = (m.b(), m.d(4), m.b(), m.d(3), m.d(3));
        let v: Vec<En> = (0..n).map(|k| en(0x0112 + k as u16, Val::U16(vec![k as u16 + 1]))).collect();
        let mut t = tiff(&dir(v), &Lay::new(be));
        if cut {
            // without the link to a next directory
            t.bytes.truncate(10 + 12 * n);
        }
        (t, src, with, n)
    };
    Space::new(
        "small",
        "EXIF of 0 to 3 entries, with and without the link behind them, as eXIf chunk or either legacy profile x alone, among texts, or ahead of a source of lower rank x byte order",
        2 * 4 * 2 * 3 * 3,
        move |i| {
            let (t, src, with, n) = make(i);
            let x = match src {
                0 => exif_ck(&t),
                k => profile(k == 1, &t, true),
            };
            let other = if src == 0 { profile(true, &mini(2, true), true) } else { txt("Title", b"a title") };
            let cs: Vec<Ck> = match with {
                0 => vec![x],
                1 => vec![txt("Author", b"me"), x, txt("Title", b"a title")],
                _ => vec![x, other],
            };
            let refs: Vec<&Ck> = cs.iter().collect();
            let (e, tx) = expect(&refs);
            verify(&format!("small:{n}:{src}:{with}"), png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>()), &e, &tx, &[Src::Mem, Src::Seek, Src::NoSeek])
        },
        |i| format!("index {i}"),
    )
}

fn many(t: Tier) -> Space {
    let max = t.pick(300, 1500);
    let mut ns: Vec<usize> = (0..max).collect();
    ns.extend([500, 512, 1000, 1023, 1024, 1025, 1800, 2048, 4096, 8191, 10_000]);
    if t == Tier::Thorough {
        ns.extend([16_384, 20_000, 32_768, 65_535, 65_536, 70_000]);
    }
    let ns = Arc::new(ns);
    let n2 = ns.clone();
    Space::new(
        "many",
        format!("0..{max} and some higher numbers (thorough up to 70000) of text chunks, of data chunks, or of both by turns, with the EXIF chunk at the start, in the middle or at the end, and a last text chunk behind it all"),
        (ns.len() * 9) as u64,
        move |i| {
            let mut m = Mix(i);
            let (place, kind, n) = (m.d(3), m.d(3), *m.of(&ns));
            let own: Vec<Ck> = (0..n)
                .map(|k| {
                    if kind == 0 || (kind == 2 && k % 2 == 0) {
                        txt(&format!("key{}", k % 7), format!("value {k}").as_bytes())
                    } else {
                        other(chunk(b"IDAT", &[k as u8; 30][..k % 31]))
                    }
                })
                .collect();
            let x = exif_ck(&mini(1, true));
            let z = txt("last", b"behind it all");
            let mut cs: Vec<&Ck> = own.iter().collect();
            cs.insert([0, n / 2, n][place], &x);
            cs.push(&z);
            let (e, t) = expect(&cs);
            verify("many", png(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>()), &e, &t, &[Src::Mem, Src::Seek, Src::NoSeek])
        },
        move |i| {
            let mut m = Mix(i);
            format!("EXIF at place {}, kind {}, {} chunks", m.d(3), m.d(3), m.of(&n2))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = sequences(t);
    v.extend([sizes(t), large(t), limit(), profiles(), characters(), small(), many(t), super::c19::far(t, &["png"])]);
    ("exploration", v, vec!["text beyond 1 MiB in one chunk or 16 MiB in total is left out by documented limit and not part of the space"])
}
