//! C02 — the way bytes are supplied never changes the result.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::outcome::*;
use nom_exif::*;
use std::sync::Arc;

/// The oracle: parse from memory (all bytes visible at once) and compare every
/// other way of supplying the same bytes.
pub fn same_everywhere(key: &str, data: Vec<u8>, apis: &[Api], srcs: &[Src]) -> CaseResult {
    let mut st = Stats::default();
    let small_non_png = data.len() <= 128 && !data.starts_with(PNG_SIG);
    let d = Arc::new(data);
    for &api in apis {
        let want = parse(&d, Src::Mem, api);
        st.note(!want.is_err(), want.fp());
        for &s in srcs {
            let got = parse(&d, s, api);
            st.note(!got.is_err(), got.fp());
            if got == want {
                continue;
            }
            // documented exception
            if small_non_png && got.err() == Some("Eof") && STREAMS.contains(&s) {
                continue;
            }
            // a declared size beyond what can be loaded (1 GiB) or sought to (i64)
            // is refused before or after the end of the data is noticed
            let lim = |o: &Out| matches!(o.err(), Some("Eof") | Some("Io(Unsupported)") | Some("Io(InvalidInput)"));
            if lim(&got) && lim(&want) {
                continue;
            }
            return viol(key, format!("{api:?} from {s:?} differs from memory: {}", diff(&got, &want)));
        }
    }
    Ok(st)
}

const OTHERS: [Src; 6] = [
    Src::Seek,
    Src::NoSeek,
    Src::AMem,
    Src::ASeek,
    Src::ANoSeek,
    Src::OldMem,
];

/// Formats with one movable payload; `n` filler bytes come before the metadata.
pub const SHIFT_FORMATS: usize = 16;
pub fn shifted(f: usize, n: usize) -> Vec<u8> {
    let t = tiff_le();
    let n8 = n.max(8);
    match f {
        0 => {
            let mut l = Lay::new(false);
            l.lead = n;
            tiff(&sample_dir(), &l).bytes
        }
        1 => {
            // far sub-directories
            let mut l = Lay::new(true).order(Order::DirsThenVals);
            l.gap = n / 4;
            tiff(&sample_dir(), &l).bytes
        }
        2 => {
            let mut segs = vec![jfif()];
            let mut left = n;
            while left > 60_000 {
                segs.push(jseg(0xe2, &filler(60_000)));
                left -= 60_000;
            }
            segs.push(jseg(0xe2, &filler(left)));
            segs.push(jseg(0xe1, &exif_payload(&t)));
            jpeg(&segs, &filler(64))
        }
        3 => png(&[chunk(b"IDAT", &filler(n)), chunk(b"eXIf", &t), text_chunk("A", b"b")]),
        4 => png(&[
            text_chunk("A", b"b"),
            chunk(b"IDAT", &filler(n / 2)),
            text_chunk("B", &filler(n / 2)),
            text_chunk("Raw profile type APP1", &raw_profile("APP1", &exif_payload(&t))),
        ]),
        5 => Heif { lead: n, ..Heif::new() }.build(&t),
        6 => Heif { pad1: n8, ..Heif::new() }.build(&t),
        7 => Heif { pad2: n8, tail: n / 3, ident: false, ..Heif::new() }.build(&t),
        8 => Heif { mdat_first: true, lead: n, ..Heif::new() }.build(&t),
        9 => Cr3 { pad1: n8, ..Cr3::new(cr3_blocks()) }.build(),
        10 => Cr3 { inner: n8, trak: n / 2, ..Cr3::new(cr3_blocks()) }.build(),
        11 => raf(&jpeg_with_exif(&t), n, b"X"),
        12 => mp4(&moov_full(), n.max(1), 10, false),
        13 => mp4(&moov_full(), 10, n, true),
        14 => mkv(
            "matroska",
            &[void(n), mk_info(Some(5.0), None, None), void(n / 2), mk_tracks(&[mk_video(64, 32)])],
        ),
        _ => mkv_seek(n, "webm"),
    }
}
/// every distance that puts some boundary of the file on a window edge
pub fn shift_points(t: Tier) -> Vec<usize> {
    let mut v = vec![];
    let mut around = |c: usize, before: usize, after: usize, step: usize| {
        let mut x = c.saturating_sub(before);
        while x <= c + after {
            v.push(x);
            x += step;
        }
    };
    match t {
        Tier::Quick => {
            around(0, 0, 136, 1);
            for c in [128usize, 8192, 8192 + 128, 16384 + 128, 24576 + 128] {
                around(c, 600, 16, 7);
                around(c, 40, 20, 1);
            }
        }
        Tier::Thorough => {
            around(0, 0, 1200, 1);
            for c in [8192usize, 16384, 24576, 32768, 40960, 49152, 65536, 131072] {
                around(c, 1700, 300, 1);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The collected view, normalised.
#[derive(Debug, PartialEq, Clone, Hash)]
pub enum Coll {
    Exif { entries: Vec<(usize, u16, String)>, errors: Vec<(usize, u16, String)>, gps: Option<String>, track: bool },
    Other(Out),
}
fn coll(e: Exif) -> Coll {
    let mut entries: Vec<_> = e.iter().map(|x| (x.ifd.as_usize(), x.tag.code(), format!("{:?}", x.value))).collect();
    entries.sort();
    let errors = e.errors().iter().map(|(i, t, x)| (i.as_usize(), t.code(), format!("{x:?}"))).collect();
    Coll::Exif { entries, errors, gps: e.gps_info().map(|g| format!("{g:?}")), track: e.has_embedded_track() }
}
fn coll_md(r: Result<Metadata>) -> Coll {
    match r {
        Ok(Metadata::Exif(e)) => coll(e),
        Ok(Metadata::Track(t)) => Coll::Other(norm_track(Ok(t))),
        Err(e) => Coll::Other(Out::Err(eclass(&e))),
    }
}
fn coll_exif(r: Result<Exif>) -> Coll {
    match r {
        Ok(e) => coll(e),
        Err(e) => Coll::Other(Out::Err(eclass(&e))),
    }
}
fn of_raw(r: Raw) -> Coll {
    match r {
        Raw::Exif(it) => coll(it.into()),
        r => Coll::Other(r.norm()),
    }
}
struct TmpFile(std::path::PathBuf);
impl TmpFile {
    fn new(data: &[u8]) -> TmpFile {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-c02-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::write(&p, data).expect("scratch file");
        TmpFile(p)
    }
}
impl Drop for TmpFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn with_rt<T>(f: impl FnOnce(&tokio::runtime::Runtime) -> T) -> T {
    thread_local!(static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().expect("runtime"));
    RT.with(|r| f(r))
}

/// Opening by path and the one-call helpers against the parser on the same bytes.
fn helpers_agree(key: &str, data: Vec<u8>) -> CaseResult {
    let f = TmpFile::new(&data);
    let d = Arc::new(data);
    let p = &f.0;
    let mut st = Stats::default();
    let raw = |s: Src, a: Api| parse_raw(&mut MediaParser::new(), &d, s, a);
    let kind = |s: Src| match s {
        Src::Mem => MediaSource::from_memory(d.as_ref().clone()).map(|m| m.kind()),
        _ => MediaSource::seekable(std::io::Cursor::new(d.as_ref().clone())).map(|m| m.kind()),
    };
    let natural = |s: Src| match kind(s) {
        Ok(MediaKind::Image) => of_raw(raw(s, Api::Exif)),
        Ok(MediaKind::Track) => of_raw(raw(s, Api::Track)),
        Err(e) => Coll::Other(Out::Err(eclass(&e))),
    };
    let mut cmp = |what: &str, got: Coll, want: Coll| -> std::result::Result<(), Violation> {
        st.note(!matches!(got, Coll::Other(Out::Err(_))), fp(&got));
        if got == want {
            return Ok(());
        }
        viol(key, format!("{what}: {} instead of {}", trunc(&format!("{got:?}"), 400), trunc(&format!("{want:?}"), 400)))
    };
    let o = |x: Out| Coll::Other(x);
    // by path
    for api in APIS {
        let mut ps = MediaParser::new();
        let got = match (MediaSource::open(p), api) {
            (Err(e), _) => Out::Err(eclass(&e)),
            (Ok(m), Api::Exif) => norm_exif(ps.parse_exif(m)),
            (Ok(m), Api::Track) => norm_track(ps.parse_track(m)),
            (Ok(m), Api::Meta) => norm_meta(ps.parse_image_metadata(m)),
        };
        cmp(&format!("open, {api:?}"), o(got), o(raw(Src::Seek, api).norm()))?;
        let mut ps = MediaParser::new();
        let got = with_rt(|rt| {
            rt.block_on(async {
                match (AsyncMediaSource::open(p).await, api) {
                    (Err(e), _) => Out::Err(eclass(&e)),
                    (Ok(m), Api::Exif) => norm_exif(ps.parse_exif_async(m).await),
                    (Ok(m), Api::Track) => norm_track(ps.parse_track_async(m).await),
                    (Ok(m), Api::Meta) => norm_meta(ps.parse_image_metadata_async(m).await),
                }
            })
        });
        cmp(&format!("asynchronous open, {api:?}"), o(got), o(raw(Src::ASeek, api).norm()))?;
    }
    cmp("read_exif", coll_exif(read_exif(p)), of_raw(raw(Src::Seek, Api::Exif)))?;
    cmp("read_exif_iter", o(norm_exif(read_exif_iter(p))), o(raw(Src::Seek, Api::Exif).norm()))?;
    cmp("read_track", o(norm_track(read_track(p))), o(raw(Src::Seek, Api::Track).norm()))?;
    cmp("read_metadata", coll_md(read_metadata(p)), natural(Src::Seek))?;
    with_rt(|rt| {
        rt.block_on(async {
            cmp("read_exif_async", coll_exif(read_exif_async(p).await), of_raw(raw(Src::ASeek, Api::Exif)))?;
            cmp("read_exif_iter_async", o(norm_exif(read_exif_iter_async(p).await)), o(raw(Src::ASeek, Api::Exif).norm()))?;
            cmp("read_track_async", o(norm_track(read_track_async(p).await)), o(raw(Src::ASeek, Api::Track).norm()))?;
            cmp("read_metadata_async", coll_md(read_metadata_async(p).await), natural(Src::ASeek))
        })
    })?;
    #[allow(deprecated)]
    {
        let b = || d.as_ref().clone();
        cmp("read_exif_from_bytes", coll_exif(read_exif_from_bytes(b())), of_raw(raw(Src::Mem, Api::Exif)))?;
        cmp("read_exif_iter_from_bytes", o(norm_exif(read_exif_iter_from_bytes(b()))), o(raw(Src::Mem, Api::Exif).norm()))?;
        cmp("read_track_from_bytes", o(norm_track(read_track_from_bytes(b()))), o(raw(Src::Mem, Api::Track).norm()))?;
        cmp("read_metadata_from_bytes", coll_md(read_metadata_from_bytes(b())), natural(Src::Mem))?;
    }
    Ok(st)
}

/// A reader that already stands behind other data: the file begins where it stands.
fn positioned(key: &str, data: Vec<u8>, before: usize, after_front: u8) -> CaseResult {
    use std::io::{Cursor, Seek, SeekFrom};
    let mut st = Stats::default();
    let d = Arc::new(data);
    let mut whole = match after_front {
        0 => vec![0u8; before],
        1 => filler(before),
        // the same file, once more
        _ => d.iter().cycle().take(before).copied().collect(),
    };
    whole.extend_from_slice(&d);
    for api in APIS {
        let want = parse(&d, Src::Seek, api);
        let mut c = Cursor::new(whole.as_slice());
        c.seek(SeekFrom::Start(before as u64)).expect("seek");
        let mut ps = MediaParser::new();
        let got = match (MediaSource::seekable(c), api) {
            (Err(e), _) => Out::Err(eclass(&e)),
            (Ok(m), Api::Exif) => norm_exif(ps.parse_exif(m)),
            (Ok(m), Api::Track) => norm_track(ps.parse_track(m)),
            (Ok(m), Api::Meta) => norm_meta(ps.parse_image_metadata(m)),
        };
        st.note(!got.is_err(), got.fp());
        if got != want {
            return viol(key, format!("{api:?} from a reader that stands {before} bytes into its data: {}", diff(&got, &want)));
        }
        let mut c = Cursor::new(whole.as_slice());
        c.set_position(before as u64);
        let mut ps = MediaParser::new();
        let got = crate::io::block_on(async {
            match (AsyncMediaSource::seekable(c).await, api) {
                (Err(e), _) => Out::Err(eclass(&e)),
                (Ok(m), Api::Exif) => norm_exif(ps.parse_exif_async(m).await),
                (Ok(m), Api::Track) => norm_track(ps.parse_track_async(m).await),
                (Ok(m), Api::Meta) => norm_meta(ps.parse_image_metadata_async(m).await),
            }
        });
        st.note(!got.is_err(), got.fp());
        if got != want {
            return viol(key, format!("{api:?} asynchronously from a reader that stands {before} bytes into its data: {}", diff(&got, &want)));
        }
    }
    Ok(st)
}

/// Directory trees of a TIFF file: nested, linked, shared and circular.
fn shapes() -> Vec<(&'static str, Dir)> {
    let k = std::cell::Cell::new(0u16);
    let d = |mut v: Vec<En>| {
        let n = k.get();
        k.set(n + 1);
        v.push(en(0x9200 + n, Val::s(&format!("value of directory {n}"))));
        v.push(en(0x9300 + n, Val::U16(vec![n])));
        v.sort_by_key(|e| e.tag);
        dir(v)
    };
    let ex = |x: Dir| sub(EXIF_PTR, x);
    let gp = || {
        let n = k.get();
        k.set(n + 1);
        sub(GPS_PTR, sample_gps())
    };
    let rf = |tag: u16, n: usize| En { tag, k: Ek::SubRef(n) };
    let plain = || d(vec![]);
    vec![
        ("main", plain()),
        ("main, Exif", d(vec![ex(plain())])),
        ("main, next", plain().with_next(plain())),
        ("main, Exif, next", d(vec![ex(plain())]).with_next(plain())),
        ("main, Exif with a next, next", d(vec![ex(plain().with_next(plain()))]).with_next(plain())),
        ("three linked", plain().with_next(plain().with_next(plain()))),
        ("four linked", plain().with_next(plain().with_next(plain().with_next(plain())))),
        ("main, next with Exif", plain().with_next(d(vec![ex(plain())]))),
        ("main, Exif in Exif", d(vec![ex(d(vec![ex(plain())]))])),
        ("main, Exif, and again from the thumbnail, third", d(vec![ex(plain())]).with_next(d(vec![rf(EXIF_PTR, 1)]).with_next(plain()))),
        ("main with the Exif twice, next", d(vec![ex(plain()), rf(EXIF_PTR, 1)]).with_next(plain())),
        ("main with itself as Exif, next", d(vec![rf(EXIF_PTR, 0)]).with_next(plain())),
        ("main, next with main as Exif, third", plain().with_next(d(vec![rf(EXIF_PTR, 0)]).with_next(plain()))),
        ("main with the thumbnail as Exif, third", d(vec![rf(EXIF_PTR, 1)]).with_next(plain().with_next(plain()))),
        ("main, GPS", d(vec![gp()])),
        ("main, GPS, next", d(vec![gp()]).with_next(plain())),
        ("main, Exif, next with main as Exif", d(vec![ex(plain())]).with_next(d(vec![rf(EXIF_PTR, 0)]))),
        ("main, Exif, GPS, next with main as Exif", d(vec![ex(plain()), gp()]).with_next(d(vec![rf(EXIF_PTR, 0)]))),
        ("main, Exif, next with itself as Exif and as GPS", d(vec![ex(plain())]).with_next(d(vec![rf(EXIF_PTR, 2), rf(GPS_PTR, 2)]))),
        ("main, Exif, GPS, next with the same two", d(vec![ex(plain()), gp()]).with_next(d(vec![rf(EXIF_PTR, 1), rf(GPS_PTR, 2)]))),
        ("main, Exif with main as GPS, GPS, next", d(vec![ex(d(vec![rf(GPS_PTR, 0)])), gp()]).with_next(plain())),
        ("main, Exif, GPS, next with Exif and GPS", d(vec![ex(plain()), gp()]).with_next(d(vec![ex(plain()), gp()]))),
        ("main, Exif with GPS and Exif, next, third", d(vec![ex(d(vec![ex(plain()), gp()]))]).with_next(plain().with_next(plain()))),
        ("main, Exif with GPS, next", d(vec![ex(d(vec![gp()]))]).with_next(plain())),
    ]
}
/// The blocks of a file in every order of its directories, one or two of them far behind the rest.
fn large(t: Tier) -> Space {
    super::c07::large(t, |k, x| {
        let srcs: &[Src] = if fp(&k) % 4 == 0 { &OTHERS } else { &[Src::Seek, Src::ANoSeek] };
        same_everywhere(&k, x.bytes, &[Api::Exif], srcs)
    })
}

fn travel(t: Tier) -> Space {
    // (shape, order, how many far)
    let shs = Arc::new(shapes());
    let mut pts: Vec<(usize, u64, usize, usize)> = vec![];
    let nat: Vec<Vec<bool>> = shs.iter().map(|s| dir_blocks(&s.1)).collect();
    for (k, b) in nat.iter().enumerate() {
        let nd = b.iter().filter(|x| **x).count();
        for p in 0..fact(nd) as u64 {
            for f1 in 0..b.len() {
                // the second far block, or none
                for f2 in 0..=b.len() {
                    if f2 != f1 && (f2 == b.len() || t == Tier::Thorough || (p + f2 as u64) % 5 == 0) {
                        pts.push((k, p, f1, f2));
                    }
                }
            }
        }
    }
    let gaps: &'static [usize] = t.pick(&[9000, 30_000][..], &[64, 4000, 8192, 9000, 16_384, 30_000, 100_000][..]);
    let pts = Arc::new(pts);
    let n = (pts.len() * gaps.len()) as u64;
    let make = {
        let (pts, shs) = (pts.clone(), shs.clone());
        move |i: u64| {
            let mut m = Mix(i);
            let gap = *m.of(gaps);
            let (k, p, f1, f2) = pts[m.0 as usize];
            let b = &nat[k];
            let ds: Vec<usize> = (0..b.len()).filter(|x| b[*x]).collect();
            let mut l: Vec<usize> = perm(ds.len(), p).into_iter().map(|x| ds[x]).collect();
            l.extend((0..b.len()).filter(|x| !b[*x]));
            l.retain(|x| *x != f1 && *x != f2);
            let mut far = 1;
            if f2 < b.len() {
                l.push(f2);
                far = 2;
            }
            l.push(f1);
            (shs[k].0, gap, tiff(&shs[k].1, &Lay { order: Order::Listed(l.clone()), far: (far, gap), tail: 150, ..Lay::new(i / 2 % 2 == 0) }).bytes, l)
        }
    };
    let m2 = make.clone();
    Space::new(
        "travel",
        format!("TIFF files of {} directory trees (nested, linked, shared, circular), their directories in every order, each block or pair of blocks far behind the rest ({gaps:?} bytes): what lies where nothing in front has asked for is read all the same", shs.len()),
        n,
        move |i| {
            let (name, gap, d, l) = make(i);
            let srcs: &[Src] = if i % 11 == 0 { &OTHERS } else { &[Src::Seek, Src::ANoSeek] };
            same_everywhere(&format!("travel:{name}:{gap}:{l:?}"), d, &[Api::Exif], srcs)
        },
        move |i| {
            let (name, gap, _, l) = m2(i);
            format!("{name}, blocks in order {l:?}, {gap} bytes")
        },
    )
}

/// Many directories, each with an Exif and a GPS directory of its own, one block far behind the rest.
fn chains(t: Tier) -> Space {
    let most = t.pick(6usize, 24);
    let build = |n: usize, nest: bool| {
        let mut k = 0u16;
        let mut one = |inner: Option<Dir>| {
            k += 1;
            let mut x = vec![en(0x9201, Val::s(&format!("value of Exif directory {k}")))];
            if let (Some(i), true) = (&inner, nest) {
                x.push(sub(EXIF_PTR, i.clone()));
            }
            let mut d = dir(vec![en(0x010f, Val::s(&format!("value of directory {k}"))), sub(EXIF_PTR, dir(x)), sub(GPS_PTR, sample_gps())]);
            if let (Some(i), false) = (inner, nest) {
                d = d.with_next(i);
            }
            d
        };
        let mut d = one(None);
        for _ in 1..n {
            d = one(Some(d));
        }
        d
    };
    let mut pts: Vec<(usize, bool, usize, usize)> = vec![];
    for n in 1..=most {
        for nest in [false, true] {
            if nest && n > 7 {
                continue;
            }
            let b = dir_blocks(&build(n, nest)).len();
            for f in 0..b {
                for o in 0..3 {
                    pts.push((n, nest, f, o));
                }
            }
        }
    }
    let gaps: &'static [usize] = t.pick(&[30_000][..], &[9000, 30_000, 100_000][..]);
    let pts = Arc::new(pts);
    let n = (pts.len() * gaps.len() * 2) as u64;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let gap = *m.of(gaps);
        let p = *m.of(&pts);
        (p, gap, be)
    };
    let d2 = dec.clone();
    Space::new(
        "chains",
        format!("1 to {most} linked (or up to 7 nested) directories, each with an Exif and a GPS directory, in natural order, back to front or directories first, each block in turn far behind the rest ({gaps:?} bytes)"),
        n,
        move |i| {
            let ((n, nest, f, o), gap, be) = dec(i);
            let d = build(n, nest);
            let b = dir_blocks(&d);
            let mut l: Vec<usize> = (0..b.len()).collect();
            match o {
                0 => {}
                1 => l.reverse(),
                _ => l.sort_by_key(|x| !b[*x]),
            }
            l.retain(|x| *x != f);
            l.push(f);
            let x = tiff(&d, &Lay { order: Order::Listed(l), far: (1, gap), tail: 150, ..Lay::new(be) }).bytes;
            let srcs: &[Src] = if i % 7 == 0 { &OTHERS } else { &[Src::Seek, Src::ANoSeek] };
            same_everywhere(&format!("chains:{n}:{nest}:{f}:{o}:{gap}:{be}"), x, &[Api::Exif], srcs)
        },
        move |i| format!("(directories, nested, far block, order), distance, big-endian: {:?}", d2(i)),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![];
    // 1. corpus x truncation at every length
    let seeds = Arc::new(all());
    {
        let s1 = seeds.clone();
        let s2 = seeds.clone();
        v.push(Space::new(
            "seeds",
            "every file of the corpus (all formats, metadata inside and beyond the buffer windows), all three entry points, all 7 sources",
            seeds.len() as u64,
            move |i| {
                let s = &s1[i as usize];
                same_everywhere(&format!("seeds:{}", s.name), s.data.clone(), &APIS, &OTHERS)
            },
            move |i| s2[i as usize].name.clone(),
        ));
    }
    // 2. truncation
    {
        let mut cuts: Vec<(usize, usize)> = vec![];
        for (k, s) in seeds.iter().enumerate() {
            let n = s.data.len();
            let step = if n <= 4096 { t.pick(2, 1) } else { t.pick(211, 17) };
            let mut c = 0;
            while c < n {
                cuts.push((k, c));
                c += step;
            }
            if n > 4096 {
                for c in n.saturating_sub(t.pick(64, 2500))..n {
                    cuts.push((k, c));
                }
            }
        }
        let cuts = Arc::new(cuts);
        let (s1, c1) = (seeds.clone(), cuts.clone());
        let (s2, c2) = (seeds.clone(), cuts.clone());
        v.push(Space::new(
            "truncated",
            "every corpus file cut off at every length (small files: every 2nd length quick, every length thorough; large files: regular grid plus the whole tail), the natural entry point, all sources",
            cuts.len() as u64,
            move |i| {
                let (k, c) = c1[i as usize];
                let s = &s1[k];
                let api: &[Api] = if s.image { &[Api::Exif, Api::Meta] } else { &[Api::Track] };
                same_everywhere(&format!("truncated:{}@{c}", s.name), s.data[..c].to_vec(), api, &OTHERS)
            },
            move |i| {
                let (k, c) = c2[i as usize];
                format!("{} cut at {c}", s2[k].name)
            },
        ));
    }
    // 3. position of the metadata relative to the windows
    {
        let pts = Arc::new(shift_points(t));
        let (p1, p2) = (pts.clone(), pts.clone());
        v.push(Space::new(
            "shift",
            "16 container layouts with the metadata moved byte by byte across the 128 B / 8 KiB / 16 KiB windows",
            (pts.len() * SHIFT_FORMATS) as u64,
            move |i| {
                let mut m = Mix(i);
                let n = *m.of(&p1);
                let f = m.d(SHIFT_FORMATS as u64);
                let api = if f >= 12 { Api::Track } else { Api::Exif };
                let apis: Vec<Api> = if f < 12 { vec![api, Api::Meta] } else { vec![api] };
                same_everywhere(&format!("shift:{f}:{n}"), shifted(f, n), &apis, &OTHERS)
            },
            move |i| {
                let mut m = Mix(i);
                let n = *m.of(&p2);
                format!("layout {} with {n} bytes before the metadata", m.d(SHIFT_FORMATS as u64))
            },
        ));
    }
    // 4. damage: a single byte of a small file replaced
    {
        let small = Arc::new(small());
        let vals: &'static [u8] = t.pick(&[0x00u8, 0xff, 0x01][..], &[0x00, 0xff, 0x01, 0x7f, 0x80, 0x10][..]);
        let step = t.pick(3usize, 1);
        let mut pts = vec![];
        for (k, s) in small.iter().enumerate() {
            for p in (0..s.data.len()).step_by(step) {
                // positions inside long payloads are all alike
                pts.push((k, p));
            }
        }
        let pts = Arc::new(pts);
        let n = (pts.len() * vals.len()) as u64;
        let (s1, p1) = (small.clone(), pts.clone());
        let (s2, p2) = (small.clone(), pts.clone());
        v.push(Space::new(
            "damaged",
            "every small corpus file with one byte replaced (every 3rd position x 3 values quick, every position x 6 values thorough), natural entry point, all sources",
            n,
            move |i| {
                let mut m = Mix(i);
                let val = *m.of(vals);
                let (k, p) = *m.of(&p1);
                let s = &s1[k];
                let mut d = s.data.clone();
                if d[p] == val {
                    return Ok(Stats::default());
                }
                d[p] = val;
                let api: &[Api] = if s.image { &[Api::Exif] } else { &[Api::Track] };
                same_everywhere(&format!("damaged:{}@{p}={val}", s.name), d, api, &OTHERS)
            },
            move |i| {
                let mut m = Mix(i);
                let val = *m.of(vals);
                let (k, p) = *m.of(&p2);
                format!("{} byte {p} := {val:#x}", s2[k].name)
            },
        ));
    }
    // 5. by path, and the one-call helpers
    {
        let mut files: Vec<(String, Vec<u8>)> = all().into_iter().map(|s| (s.name, s.data)).collect();
        for s in small() {
            let n = s.data.len();
            for c in [0, 1, 4, 12, 64, 127, 128, 129, n / 3, n / 2, n - 1] {
                files.push((format!("{}@{c}", s.name), s.data[..c.min(n)].to_vec()));
            }
        }
        let pts = shift_points(Tier::Quick);
        for f in 0..SHIFT_FORMATS {
            for n in pts.iter().step_by(t.pick(29, 2)) {
                files.push((format!("shift:{f}:{n}"), shifted(f, *n)));
            }
        }
        let files = Arc::new(files);
        let f2 = files.clone();
        v.push(Space::new(
            "helpers",
            "every corpus file, small ones cut off at 11 lengths, and the shifted layouts on a grid, as a file on disk: opened by path (sync and async, all three entry points) and through all 12 one-call helpers, against the parser over a reader or memory",
            files.len() as u64,
            move |i| {
                let (n, d) = &files[i as usize];
                helpers_agree(&format!("helpers:{n}"), d.clone())
            },
            move |i| f2[i as usize].0.clone(),
        ));
    }
    // 6. readers that do not stand at the beginning of their data
    {
        let mut files: Vec<(String, Vec<u8>)> = all().into_iter().map(|s| (s.name, s.data)).collect();
        for f in 0..SHIFT_FORMATS {
            for n in [500usize, 8192, 40_000] {
                files.push((format!("shift:{f}:{n}"), shifted(f, n)));
            }
        }
        let files = Arc::new(files);
        let f2 = files.clone();
        const AT: [usize; 6] = [1, 127, 128, 4096, 8192, 70_000];
        v.push(Space::new(
            "positioned",
            "every corpus file and shifted layouts behind 1 to 70000 bytes of zeros, other bytes or the same file, in a seekable reader that already stands at its beginning: the same as the file alone, sync and async",
            (files.len() * AT.len() * 3) as u64,
            move |i| {
                let mut m = Mix(i);
                let at = *m.of(&AT);
                let k = m.d(3) as u8;
                let (n, d) = &files[m.0 as usize];
                positioned(&format!("positioned:{n}:{at}:{k}"), d.clone(), at, k)
            },
            move |i| {
                let mut m = Mix(i);
                let at = *m.of(&AT);
                let k = m.d(3);
                format!("{} {at} bytes in, kind {k}", f2[m.0 as usize].0)
            },
        ));
    }
    v.push(super::c19::far(t, &[]));
    v.push(travel(t));
    v.push(chains(t));
    v.push(large(t));
    v.push(super::c07::crowded(t, |k, x| {
        let srcs: &[Src] = if fp(&k) % 4 == 0 { &OTHERS } else { &[Src::Seek, Src::ANoSeek] };
        same_everywhere(&k, x.bytes, &[Api::Exif], srcs)
    }));
    (
        "exploration",
        v,
        vec!["path-based opening is the seekable source over std::fs::File"],
    )
}
