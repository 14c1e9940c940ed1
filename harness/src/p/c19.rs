//! C19 — memory and reading stay bounded by what the metadata needs.
//!
//! Memory is decided by the counting allocator (peak of live heap and largest single
//! request on the executing thread), reading by a reader that logs every byte
//! it hands out and that can be larger than memory.
use super::Spec;
use crate::alloc::{measure, Usage};
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::{block_on, NoSeek};
use crate::outcome::*;
use nom_exif::*;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

/// A file made of real pieces and pieces that only have a length.
#[derive(Clone)]
pub enum Piece {
    Meta(Vec<u8>),
    Pay(u64),
}
use Piece::*;

#[derive(Default, Clone, Copy, Debug)]
pub struct Log {
    pub bytes: u64,
    pub reads: u64,
    pub seeks: u64,
}
pub struct Virt {
    /// (start, end, content)
    parts: Arc<Vec<(u64, u64, Option<Vec<u8>>)>>,
    len: u64,
    pos: u64,
    log: Rc<RefCell<Log>>,
}
// as for `Rd`: one thread only
unsafe impl Send for Virt {}
impl Virt {
    pub fn new(p: &[Piece]) -> (Virt, Rc<RefCell<Log>>) {
        let mut at = 0u64;
        let mut parts = vec![];
        for x in p {
            let (n, c) = match x {
                Meta(v) => (v.len() as u64, Some(v.clone())),
                Pay(n) => (*n, None),
            };
            if n > 0 {
                parts.push((at, at + n, c));
            }
            at += n;
        }
        let log = Rc::new(RefCell::new(Log::default()));
        (Virt { parts: Arc::new(parts), len: at, pos: 0, log: log.clone() }, log)
    }
    fn go(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.log.borrow_mut().seeks += 1;
        let np = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        };
        match np {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
impl Read for Virt {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let parts = self.parts.clone();
        let mut done = 0;
        for (s, e, c) in parts.iter() {
            if done == buf.len() || self.pos >= self.len {
                break;
            }
            if self.pos < *s || self.pos >= *e {
                continue;
            }
            let n = ((*e - self.pos) as usize).min(buf.len() - done);
            let o = (self.pos - s) as usize;
            match c {
                Some(v) => buf[done..done + n].copy_from_slice(&v[o..o + n]),
                None => buf[done..done + n].fill(0x55),
            }
            done += n;
            self.pos += n as u64;
        }
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        l.bytes += done as u64;
        Ok(done)
    }
}
impl Seek for Virt {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.go(to)
    }
}
impl AsyncRead for Virt {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = {
            let b = buf.initialize_unfilled();
            Read::read(&mut *self, b)?
        };
        buf.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Virt {
    fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> io::Result<()> {
        self.go(to).map(|_| ())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready(Ok(self.pos))
    }
}
struct ANo(Virt);
impl AsyncRead for ANo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Mem,
    Seek,
    NoSeek,
    ASeek,
    ANoSeek,
    AMem,
}
const HOWS: [How; 6] = [How::Mem, How::Seek, How::NoSeek, How::ASeek, How::ANoSeek, How::AMem];

/// Read everything a user can get without keeping it: every entry, GPS, tags, texts.
fn consume(r: Raw) -> (bool, u64) {
    match r {
        Raw::Exif(it) => (true, sip(it)),
        Raw::Track(t) => (true, crate::exer::track(&t)),
        Raw::Meta(m) => {
            let mut h = 0;
            if let Some(it) = m.exif {
                h ^= sip(it);
            }
            if let Some(f) = &m.format {
                h ^= crate::exer::format(f);
            }
            (true, h)
        }
        Raw::Err(e) => (false, fp(&e)),
    }
}
fn sip(mut it: ExifIter) -> u64 {
    let _ = it.parse_gps();
    let mut n = 0u64;
    while let Some(e) = it.next() {
        n = n.wrapping_mul(31).wrapping_add(e.tag().code() as u64 + e.value().is_some() as u64);
    }
    n
}

fn run_virt(p: &mut MediaParser, pieces: &[Piece], how: How, api: Api) -> (bool, u64, Usage, Log) {
    let (v, log) = Virt::new(pieces);
    macro_rules! sync {
        ($ms:expr) => {{
            match $ms {
                Ok(ms) => match api {
                    Api::Exif => consume(p.parse_exif(ms).map(Raw::Exif).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                    Api::Track => consume(p.parse_track(ms).map(Raw::Track).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                    Api::Meta => consume(p.parse_image_metadata(ms).map(Raw::Meta).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                },
                Err(_) => (false, 0),
            }
        }};
    }
    macro_rules! asyn {
        ($ms:expr) => {{
            match $ms {
                Ok(ms) => match api {
                    Api::Exif => consume(p.parse_exif_async(ms).await.map(Raw::Exif).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                    Api::Track => consume(p.parse_track_async(ms).await.map(Raw::Track).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                    Api::Meta => consume(p.parse_image_metadata_async(ms).await.map(Raw::Meta).unwrap_or_else(|e| Raw::Err(eclass(&e)))),
                },
                Err(_) => (false, 0),
            }
        }};
    }
    let ((ok, h), u) = match how {
        How::Mem | How::AMem => {
            let b: bytes::Bytes = whole(pieces).into();
            if how == How::Mem {
                measure(move || sync!(MediaSource::from_memory(b)))
            } else {
                measure(move || block_on(async { asyn!(AsyncMediaSource::from_memory(b)) }))
            }
        }
        How::Seek => measure(|| sync!(MediaSource::seekable(v))),
        How::NoSeek => measure(|| sync!(MediaSource::unseekable(NoSeek(v)))),
        How::ASeek => measure(|| block_on(async { asyn!(AsyncMediaSource::seekable(v).await) })),
        How::ANoSeek => measure(|| block_on(async { asyn!(AsyncMediaSource::unseekable(ANo(v)).await) })),
    };
    let l = *log.borrow();
    (ok, h, u, l)
}
fn whole(p: &[Piece]) -> Vec<u8> {
    let mut v = vec![];
    for x in p {
        match x {
            Meta(m) => v.extend_from_slice(m),
            Pay(n) => v.resize(v.len() + *n as usize, 0x55),
        }
    }
    v
}
fn apis(image: bool) -> &'static [Api] {
    if image {
        &[Api::Exif, Api::Meta]
    } else {
        &[Api::Track]
    }
}

// ------------------------------------------------------------------ declared

/// Fixed allowance: buffers of a few windows plus capped preallocations of counts.
const FIXED: i64 = 128 << 10;
/// A reader which can't seek is skipped in blocks that are dropped.
const FIXED_SKIP: i64 = 1 << 20;

fn check_declared(key: &str, data: &[u8], image: bool, hows: &[How]) -> CaseResult {
    let mut st = Stats::default();
    let pieces = [Meta(data.to_vec())];
    for &api in apis(image) {
        for &how in hows {
            let (ok, _, u, _) = run_virt(&mut MediaParser::new(), &pieces, how, api);
            st.note(ok, fp(&(ok, u.peak)));
            let lim = 4 * data.len() as i64 + FIXED;
            if u.peak > lim {
                return viol(
                    key,
                    format!("{api:?} from {how:?}: {} bytes of input, peak heap {} (largest request {}), limit {lim}", data.len(), u.peak, u.max_req),
                );
            }
        }
    }
    Ok(st)
}

fn declared(t: Tier) -> Space {
    let seeds = Arc::new(t.pick(small(), all()));
    // (seed, offset)
    let mut pts = vec![];
    for (k, s) in seeds.iter().enumerate() {
        let n = s.data.len();
        if n <= 4096 {
            for o in 0..n {
                pts.push((k, o));
            }
        } else {
            for o in (0..1500).chain((1500..n).step_by(97)).chain(n - 1500..n) {
                pts.push((k, o));
            }
        }
    }
    let pts = Arc::new(pts);
    const SUB: &[(usize, u64)] = &[
        (1, 0xff),
        (1, 0x7f),
        (1, 0x01),
        (2, 0xffff),
        (2, 0x7fff),
        (4, 0xffff_ffff),
        (4, 0x7fff_ffff),
        (4, 0x3fff_ff00),
        (4, 0x0100_0000),
        (4, 0x0000_0100),
        (4, 0x0010_0000),
        (8, u64::MAX),
        (8, 0x7fff_ffff_ffff_ffff),
        (8, 0x0000_0000_3fff_0000),
        (8, 0x0000_0001_0000_0000),
        (8, 0x0000_ff3f_0000_0000),
        // EBML sizes of eight bytes
        (8, 0x01ff_ffff_ffff_fffe),
        (8, 0x0100_0000_3000_0000),
    ];
    let (s1, p1) = (seeds.clone(), pts.clone());
    let (s2, p2) = (seeds.clone(), pts.clone());
    let hows: &'static [How] = t.pick(&[How::Mem, How::Seek, How::ASeek][..], &HOWS[..]);
    Space::new(
        "declared",
        "every offset of every small corpus file (thorough: also the large ones, on a grid) overwritten with 18 large big-endian and little-endian numbers of 1, 2, 4 and 8 bytes, each source: the peak heap stays within 4 x the file size + 128 KiB while parsing and reading every entry",
        pts.len() as u64,
        move |i| {
            let (k, o) = p1[i as usize];
            let s = &s1[k];
            let mut st = Stats::default();
            for &(w, v) in SUB {
                if o + w > s.data.len() {
                    continue;
                }
                let mut d = s.data.clone();
                let b = v.to_be_bytes();
                d[o..o + w].copy_from_slice(&b[8 - w..]);
                st.add(check_declared(&format!("declared:{}@{o}={w}:{v:#x}", s.name), &d, s.image, hows)?);
            }
            Ok(st)
        },
        move |i| {
            let (k, o) = p2[i as usize];
            format!("{} offset {o}", s2[k].name)
        },
    )
}

// ------------------------------------------------------------------ skipped

struct Lay19 {
    name: &'static str,
    image: bool,
    /// largest payload the layout can declare
    max: u64,
    /// smallest payload
    min: u64,
    /// pieces of payload
    units: u64,
    build: fn(u64) -> Vec<Piece>,
}
fn mdat32(n: u64) -> Vec<Piece> {
    let mut h = ((n + 8) as u32).to_be_bytes().to_vec();
    h.extend_from_slice(b"mdat");
    vec![Meta(h), Pay(n)]
}
fn mdat64(n: u64) -> Vec<Piece> {
    let mut h = 1u32.to_be_bytes().to_vec();
    h.extend_from_slice(b"mdat");
    h.extend_from_slice(&(n + 16).to_be_bytes());
    vec![Meta(h), Pay(n)]
}
fn idat(n: u64) -> Vec<Piece> {
    let mut h = (n as u32).to_be_bytes().to_vec();
    h.extend_from_slice(b"IDAT");
    vec![Meta(h), Pay(n), Meta(vec![1, 2, 3, 4])]
}
fn free64(n: u64) -> Vec<Piece> {
    let mut h = 1u32.to_be_bytes().to_vec();
    h.extend_from_slice(b"free");
    h.extend_from_slice(&(n + 16).to_be_bytes());
    vec![Meta(h), Pay(n)]
}
fn m(v: Vec<u8>) -> Vec<Piece> {
    vec![Meta(v)]
}
fn png_parts(parts: Vec<Vec<Piece>>) -> Vec<Piece> {
    let mut v = vec![Meta(cat(&[PNG_SIG.to_vec(), ihdr()]))];
    v.extend(parts.concat());
    v.push(Meta(chunk(b"IEND", &[])));
    v
}
const G32: u64 = u32::MAX as u64 - 8;
const LAYS: &[Lay19] = &[
    Lay19 { name: "mp4: mdat, moov", image: false, max: G32, min: 0, units: 1, build: |n| [m(ftyp(b"mp42", &[b"mp42"])), mdat32(n), m(moov_full())].concat() },
    Lay19 { name: "mp4: 64-bit mdat, moov", image: false, max: 1 << 40, min: 0, units: 1, build: |n| [m(ftyp(b"isom", &[b"mp42"])), mdat64(n), m(moov_full())].concat() },
    Lay19 { name: "mov: wide, mdat, free, mdat, moov", image: false, max: G32, min: 0, units: 2, build: |n| [m(ftyp(b"qt  ", &[b"qt  "])), m(bx(b"wide", &[])), mdat32(n), m(free(40)), mdat32(n / 3), m(moov_full())].concat() },
    Lay19 { name: "mp4: moov, mdat", image: false, max: 1 << 40, min: 0, units: 1, build: |n| [m(ftyp(b"mp42", &[b"mp42"])), m(moov_full()), mdat64(n)].concat() },
    Lay19 { name: "png: IDAT, eXIf", image: true, max: 0x7fff_ffff, min: 0, units: 1, build: |n| png_parts(vec![idat(n), m(chunk(b"eXIf", &tiff_le()))]) },
    Lay19 { name: "png: text, IDAT, eXIf, IDAT, text", image: true, max: 0x7fff_ffff, min: 0, units: 2, build: |n| png_parts(vec![m(text_chunk("A", b"b")), idat(n), m(chunk(b"eXIf", &tiff_be())), idat(n / 2), m(text_chunk("C", b"d"))]) },
    Lay19 { name: "png: IDAT, legacy profile", image: true, max: 0x7fff_ffff, min: 0, units: 1, build: |n| png_parts(vec![idat(n), m(text_chunk("Raw profile type APP1", &raw_profile("APP1", &exif_payload(&tiff_le()))))]) },
    Lay19 { name: "png: IDAT, text, IDAT, eXIf, IDAT, text", image: true, max: 0x7fff_ffff, min: 0, units: 3, build: |n| png_parts(vec![idat(n), m(text_chunk("A", b"b")), idat(n), m(chunk(b"eXIf", &tiff_be())), idat(n), m(text_chunk("C", b"d"))]) },
    Lay19 { name: "mp4: free, moov, mdat", image: false, max: 1 << 40, min: 0, units: 2, build: |n| [m(ftyp(b"mp42", &[b"mp42"])), free64(n), m(moov_full()), mdat64(n)].concat() },
    Lay19 { name: "heic: image data before the item", image: true, max: 1 << 40, min: 0, units: 1, build: |n| { let (h, e) = Heif { osz: 8, ..Heif::new() }.far(&tiff_le(), n, 16); vec![Meta(h), Pay(n), Meta(e), Pay(16)] } },
    Lay19 { name: "heic: base offset, image data before the item", image: true, max: 1 << 40, min: 0, units: 1, build: |n| { let (h, e) = Heif { osz: 8, bsz: 8, base: true, ..Heif::new() }.far(&tiff_be(), n, 0); vec![Meta(h), Pay(n), Meta(e)] } },
    Lay19 { name: "heic: image data behind the item", image: true, max: 1 << 40, min: 0, units: 1, build: |n| { let (h, e) = Heif { osz: 8, ..Heif::new() }.far(&tiff_le(), 0, n); vec![Meta(h), Meta(e), Pay(n)] } },
    Lay19 { name: "jpeg: scan behind", image: true, max: 1 << 40, min: 0, units: 1, build: |n| vec![Meta(jpeg_with_exif(&tiff_le())), Pay(n)] },
    Lay19 { name: "tiff: strips behind", image: true, max: 1 << 40, min: 0, units: 1, build: |n| vec![Meta(tiff_le()), Pay(n)] },
    Lay19 { name: "cr3: mdat behind", image: true, max: 1 << 40, min: 0, units: 1, build: |n| [m(Cr3::new(cr3_blocks()).build()), mdat64(n)].concat() },
    Lay19 { name: "raf: raw data behind", image: true, max: 1 << 40, min: 0, units: 1, build: |n| vec![Meta(raf(&jpeg_with_exif(&tiff_le()), 0, b"X")), Pay(n)] },
    Lay19 { name: "mkv: clusters behind", image: false, max: 1 << 40, min: 0, units: 1, build: |n| vec![Meta(mkv("matroska", &[mk_info(Some(5.0), None, None), mk_tracks(&[mk_video(64, 32)]), cluster(50)])), Pay(n)] },
];


/// Everything the three promises say about one run. `units` counts the payload pieces.
fn check_run(key: &str, pieces: &[Piece], units: u64, how: How, api: Api, want: u64, st: &mut Stats) -> std::result::Result<(), Violation> {
    let meta: u64 = pieces.iter().map(|p| if let Meta(v) = p { v.len() as u64 } else { 0 }).sum();
    let (ok, h, u, g) = run_virt(&mut MediaParser::new(), pieces, how, api);
    st.note(ok, fp(&(ok, h, g.bytes)));
    if !ok || h != want {
        return viol(key, format!("{api:?} from {how:?}: not the metadata of the file without payload (parsed: {ok})"));
    }
    let lim = 4 * meta as i64
        + match how {
            How::Mem | How::AMem => 16 << 10,
            How::Seek | How::ASeek => FIXED,
            _ => FIXED_SKIP,
        };
    if u.peak > lim {
        return viol(
            key,
            format!("{api:?} from {how:?}: {meta} bytes of metadata, peak heap {}, limit {lim}", u.peak),
        );
    }
    let lim = meta + 20 * 1024 * (units + 1);
    if matches!(how, How::Seek | How::ASeek) && g.bytes > lim {
        return viol(
            key,
            format!("{api:?} from {how:?}: {} bytes read for {meta} bytes of metadata and {units} pieces of payload, limit {lim}", g.bytes),
        );
    }
    Ok(())
}

/// Metadata far into a file: what is read where offsets no longer fit 31, 32 or 36 bits.
pub fn far_out(pieces: &[Piece], asynchronous: bool, api: Api) -> Out {
    let (v, _) = Virt::new(pieces);
    let mut p = MediaParser::new();
    if asynchronous {
        block_on(async {
            let ms = AsyncMediaSource::seekable(v).await;
            async_with(&mut p, api, ms).await
        })
        .norm()
    } else {
        sync_with(&mut p, api, MediaSource::seekable(v)).norm()
    }
}
pub fn far(t: Tier, starts: &'static [&'static str]) -> Space {
    let mut sizes: Vec<u64> = vec![0, 1 << 20, 1 << 30];
    for b in t.pick(&[31u32, 32, 33, 39][..], &[29, 30, 31, 32, 33, 34, 35, 36, 38, 39][..]) {
        for d in t.pick(&[-700i64, -9, -8, -1, 0, 1, 5, 300][..], &[-70_000i64, -20_000, -8192, -8191, -700, -300, -128, -33, -17, -16, -9, -8, -7, -1, 0, 1, 5, 8, 16, 100, 300, 8192, 20_000][..]) {
            sizes.push((1u64 << b).wrapping_add_signed(*d));
        }
    }
    let lays: Vec<&'static Lay19> = LAYS.iter().filter(|l| starts.is_empty() || starts.iter().any(|s| l.name.starts_with(s))).collect();
    let n = (lays.len() * sizes.len() * 3) as u64;
    let (l2, s2) = (lays.clone(), sizes.clone());
    let what = if starts.is_empty() { "all".to_string() } else { format!("the {}", starts.join(", ")) };
    Space::new(
        "far",
        format!("{what} layouts with payload in front of, between or behind the metadata, {} sizes of it, around 2^31, 2^32, 2^33 and 2^39 (thorough: 10 powers from 2^29 on), so that what the metadata lies at, or the box or chunk it lies behind, needs more than 32 bits; from a seekable reader, sync and async, the entry points of the format: the same as the file in memory with no payload", sizes.len()),
        n,
        move |i| {
            let mut mx = Mix(i);
            let api = *mx.of(&APIS);
            let l = mx.of(&lays);
            let n = *mx.of(&sizes);
            if n > l.max || !apis(l.image).contains(&api) {
                return Ok(Stats::default());
            }
            let want = parse(&Arc::new(whole(&(l.build)(l.min))), Src::Mem, api);
            if want.is_err() {
                return viol("far:base", format!("{}: {api:?}: {want:?}", l.name));
            }
            let p = (l.build)(n);
            let mut st = Stats::default();
            for a in [false, true] {
                let got = far_out(&p, a, api);
                st.note(!want.is_err(), got.fp());
                if got != want {
                    return viol(format!("far:{}:{n}", l.name), format!("{api:?}, async {a}: {}", diff(&got, &want)));
                }
            }
            Ok(st)
        },
        move |i| {
            let mut mx = Mix(i);
            format!("{:?} of {} with {} bytes", mx.of(&APIS), mx.of(&l2).name, mx.of(&s2))
        },
    )
}

fn skipped(t: Tier) -> Space {
    let mut sizes: Vec<u64> = vec![];
    for c in [0u64, 128, 8192, 8192 + 128, 16384, 24576, 65536, 262144, 524288] {
        for d in t.pick(&[-1i64, 0, 1, 100][..], &[-300i64, -64, -16, -9, -8, -1, 0, 1, 7, 8, 9, 64, 300, 1000][..]) {
            sizes.push((c as i64 + d).max(0) as u64);
        }
    }
    let mut x = 700u64;
    while x < 60_000 {
        sizes.push(x);
        x += t.pick(2111, 97);
    }
    sizes.extend([
        1 << 20,
        (1 << 20) + 1,
        5_000_011,
        20 << 20,
        300 << 20,
        0x3fff_ffff,
        1 << 30,
        0x7fff_fff0,
        0x8000_0000,
        0xffff_ff00,
        5 << 30,
        1 << 36,
        1 << 39,
    ]);
    if t == Tier::Thorough {
        sizes.extend([2 << 20, 8 << 20, 32 << 20, 100 << 20, 1_000_000_007, 3 << 30, 1 << 32, (1 << 32) + 1, 1 << 38]);
    }
    sizes.sort_unstable();
    sizes.dedup();
    let n = sizes.len() as u64;
    let sizes = Arc::new(sizes);
    let s2 = sizes.clone();
    let stream_max: u64 = t.pick(20 << 20, 128 << 20);
    Space::new(
        "skipped",
        "17 layouts with payload before, between or behind the metadata x payload sizes around every window edge and from 1 MiB to 2^39 bytes (files larger than memory come from a reader that makes them up) x 6 sources (payloads over 20 MiB: the seekable ones): same metadata as without payload; seekable: at most the metadata + 20 KiB per piece of payload is read and the heap stays under 4 x metadata + 128 KiB; unseekable: heap under 4 x metadata + 1 MiB; memory: under 4 x metadata + 16 KiB",
        n * LAYS.len() as u64,
        move |i| {
            let mut mx = Mix(i);
            let l = &LAYS[mx.d(LAYS.len() as u64)];
            let n = *mx.of(&sizes);
            let mut st = Stats::default();
            if n > l.max {
                return Ok(st);
            }
            let base = (l.build)(l.min);
            let p = (l.build)(n);
            for &api in apis(l.image) {
                let (ok, want, _, _) = run_virt(&mut MediaParser::new(), &base, How::Mem, api);
                if !ok {
                    return viol("skipped:base", format!("{}: nothing found without payload", l.name));
                }
                for how in HOWS {
                    if n > stream_max && !matches!(how, How::Seek | How::ASeek) {
                        continue;
                    }
                    check_run(&format!("skipped:{}:{n}", l.name), &p, l.units, how, api, want, &mut st)?;
                }
            }
            Ok(st)
        },
        move |i| {
            let mut mx = Mix(i);
            let l = &LAYS[mx.d(LAYS.len() as u64)];
            format!("{}, payload of {} bytes", l.name, mx.of(&s2))
        },
    )
}

/// Many pieces of payload between pieces of metadata.
fn pieces(t: Tier) -> Space {
    let counts: &'static [u64] = t.pick(&[0, 1, 2, 3, 5, 17, 64, 300][..], &[0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 100, 300, 1000][..]);
    let sizes: &'static [u64] = t.pick(&[8, 1000, 8192, 16384, 40_000, 1 << 20, 100 << 20][..], &[8, 64, 1000, 8000, 8192, 16383, 16384, 16385, 40_000, 262_144, 1 << 20, 100 << 20, 2_000_000_000][..]);
    Space::new(
        "pieces",
        "PNG with 0 to 300 (thorough 1000) image data chunks in front of, between and behind texts and the Exif chunk, MP4 with as many mdat/free/skip/uuid boxes before the movie box x sizes of a piece 8 B to 100 MiB (thorough 2 GB): the same limits per piece, sync and async",
        (counts.len() * sizes.len() * 2) as u64,
        move |i| {
            let mut mx = Mix(i);
            let c = *mx.of(counts);
            let n = *mx.of(sizes);
            let png = mx.b();
            let mut st = Stats::default();
            let make = |c: u64| -> Vec<Piece> {
                if png {
                    let mut v = vec![m(text_chunk("A", b"b"))];
                    for k in 0..c {
                        v.push(idat(n));
                        if k == c / 2 {
                            v.push(m(text_chunk("M", b"mid")));
                        }
                    }
                    if c == 0 {
                        v.push(m(text_chunk("M", b"mid")));
                    }
                    v.push(m(chunk(b"eXIf", &tiff_le())));
                    v.push(m(text_chunk("Z", b"end")));
                    png_parts(v)
                } else {
                    let mut v = m(ftyp(b"isom", &[b"mp42"]));
                    for k in 0..c {
                        let ty = [b"mdat", b"free", b"skip", b"uuid"][(k % 4) as usize];
                        let mut h = ((n + 8) as u32).to_be_bytes().to_vec();
                        h.extend_from_slice(ty);
                        v.push(Meta(h));
                        v.push(Pay(n));
                    }
                    v.push(Meta(moov_full()));
                    v
                }
            };
            let (base, p) = (make(0), make(c));
            for &api in apis(png) {
                let (ok, want, _, _) = run_virt(&mut MediaParser::new(), &base, How::Mem, api);
                assert!(ok);
                for how in [How::Seek, How::ASeek] {
                    check_run(&format!("pieces:{}:{c}x{n}", png), &p, c, how, api, want, &mut st)?;
                }
            }
            Ok(st)
        },
        move |i| {
            let mut mx = Mix(i);
            let c = *mx.of(counts);
            let n = *mx.of(sizes);
            format!("{} with {c} pieces of {n} bytes", if mx.b() { "PNG" } else { "MP4" })
        },
    )
}

/// Values that overlap: every entry declares as much of the file as there is.
fn overlap(t: Tier) -> Vec<Space> {
    const FMTS: [(u16, u32); 12] = [(1, 1), (2, 1), (3, 2), (4, 4), (5, 8), (6, 1), (7, 1), (8, 2), (9, 4), (10, 8), (11, 4), (12, 8)];
    let ns: &'static [usize] = t.pick(&[1, 10, 200][..], &[1, 10, 100, 1000][..]);
    fn file(n: usize, fmt: u16, unit: u32, body: usize) -> Vec<u8> {
        let start = 8 + 2 + 12 * n + 4;
        let mut v = b"MM\0\x2a\0\0\0\x08".to_vec();
        v.extend_from_slice(&(n as u16).to_be_bytes());
        for k in 0..n {
            v.extend_from_slice(&(0xc000 + k as u16).to_be_bytes());
            v.extend_from_slice(&fmt.to_be_bytes());
            v.extend_from_slice(&((body as u32) / unit).to_be_bytes());
            v.extend_from_slice(&(start as u32).to_be_bytes());
        }
        v.extend_from_slice(&[0; 4]);
        v.extend_from_slice(&filler(body));
        v
    }
    let lazy = Space::new(
        "overlap",
        "TIFF directories of 1 to 200 (thorough 1000) entries of each of the 12 formats that all declare the same large value: iterating keeps within 4 x the file size + 128 KiB",
        (ns.len() * 12 * 2) as u64,
        move |i| {
            let mut mx = Mix(i);
            let n = *mx.of(ns);
            let (fmt, unit) = FMTS[mx.d(12)];
            let body = *mx.of(&[3000usize, 100_000]);
            check_declared(&format!("overlap:{n}:{fmt}:{body}"), &file(n, fmt, unit, body), true, &HOWS)
        },
        move |i| {
            let mut mx = Mix(i);
            let n = *mx.of(ns);
            format!("{n} entries of format {}", FMTS[mx.d(12)].0)
        },
    );
    let eager = Space::new(
        "overlap-collected",
        "the same files collected into an Exif: 4 x the file size + 128 KiB + 256 bytes an entry, values that lie apart from each other (64 entries of up to 4 KiB) and values that overlap",
        24,
        |i| {
            let mut mx = Mix(i);
            let (fmt, unit) = FMTS[mx.d(12)];
            let apart = mx.b();
            let mut d = file(64, fmt, unit, 64 * 4096);
            if apart {
                for k in 0..64usize {
                    let e = 8 + 2 + 12 * k;
                    let at = 8 + 2 + 12 * 64 + 4 + 4096 * k;
                    d[e + 4..e + 8].copy_from_slice(&(4096 / unit).to_be_bytes());
                    d[e + 8..e + 12].copy_from_slice(&(at as u32).to_be_bytes());
                }
            }
            let lim = 4 * d.len() as i64 + FIXED + 64 * 256;
            let b: bytes::Bytes = d.into();
            let (n, u) = measure(move || {
                let it = MediaParser::new().parse_exif(MediaSource::from_memory(b).unwrap()).unwrap();
                let e: Exif = it.into();
                let n = e.iter().count() + e.errors().len();
                n
            });
            if n != 64 {
                return viol("overlap-collected:count", format!("{n} entries"));
            }
            if u.peak > lim {
                // one identity for all files with overlapping values
                let key = if apart { format!("overlap-collected:apart:{fmt}") } else { "overlap-collected:overlapping-values".into() };
                return viol(key, format!("format {fmt}: peak heap {}, limit {lim}: 64 values that are the same bytes of the file are 64 copies", u.peak));
            }
            Ok(Stats::one(true, fp(&u.peak)))
        },
        |i| {
            let mut mx = Mix(i);
            format!("format {}, apart {}", FMTS[mx.d(12)].0, mx.b())
        },
    );
    vec![lazy, eager]
}

/// What a reused parser keeps.
fn retained(t: Tier) -> Space {
    let sizes: &'static [usize] = t.pick(&[10_000, 5 << 20, 12 << 20][..], &[0, 10_000, 1 << 20, 4 << 20, 5 << 20, 20 << 20, 60 << 20][..]);
    Space::new(
        "retained",
        "one parser: a file whose metadata needs 10 KB to 12 MiB (thorough 60 MiB) in the buffer (TIFF values far apart, MP4 with a large movie box, JPEG behind many segments in one read), then a small file, from each pair of sources (streams and memory): afterwards the parser keeps at most 4 MiB + 128 KiB of heap",
        (sizes.len() * 3 * 6 * 2 * 6) as u64,
        move |i| {
            let mut mx = Mix(i);
            let n = *mx.of(sizes);
            let kind = mx.d(3);
            let how = *mx.of(&HOWS);
            let fail = mx.b();
            let how2 = *mx.of(&HOWS);
            let base = crate::alloc::live();
            let (big, api) = match kind {
                0 => (tiff(&sample_dir(), &Lay { gap: n / 24, ..Lay::new(false) }).bytes, Api::Exif),
                1 => {
                    let mut body = moov_full()[8..].to_vec();
                    body.extend_from_slice(&bx(b"free", &filler(n)));
                    (cat(&[ftyp(b"isom", &[b"mp42"]), bx(b"moov", &body)]), Api::Track)
                }
                _ => (Heif { mdat_first: true, lead: n, ..Heif::new() }.build(&tiff_le()), Api::Exif),
            };
            let mut st = Stats::default();
            let mut p = MediaParser::new();
            let big = [Meta(big)];
            let (ok, _, _, _) = run_virt(&mut p, &big, how, api);
            st.note(ok, fp(&(ok, kind, n)));
            if !ok {
                return viol("retained:parse", format!("kind {kind}: {n} bytes from {how:?} not parsed"));
            }
            let small = [Meta(if fail { bx(b"abcd", &filler(300)) } else { cat(&[jpeg_with_exif(&tiff_le()), filler(300)]) })];
            let (ok, _, _, _) = run_virt(&mut p, &small, how2, Api::Exif);
            st.note(ok, fp(&ok));
            drop(big);
            drop(small);
            let kept = crate::alloc::live() - base;
            // a failed attempt may not even get as far as looking at the buffer
            if !fail && kept > (4 << 20) + FIXED {
                return viol(format!("retained:{kind}:{n}:{how:?}:{how2:?}"), format!("the parser keeps {kept} bytes"));
            }
            st.note(true, fp(&kept));
            Ok(st)
        },
        move |i| {
            let mut mx = Mix(i);
            let n = *mx.of(sizes);
            {
                let (k, h, _) = (mx.d(3), *mx.of(&HOWS), mx.b());
                format!("kind {k} of {n} bytes, source {h:?}, then {:?}", mx.of(&HOWS))
            }
        },
    )
}

// ------------------------------------------------------------------ paths

/// A scratch file with holes for its payload.
struct Sparse(std::path::PathBuf);
impl Sparse {
    /// None where the file system has no room for such a file.
    fn new(p: &[Piece]) -> Option<Sparse> {
        use std::io::Write;
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let path = std::env::temp_dir().join(format!("mc-c19-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let mut f = std::fs::File::create(&path).expect("scratch file");
        let me = Sparse(path);
        let mut at = 0u64;
        for x in p {
            match x {
                Meta(v) => {
                    f.seek(SeekFrom::Start(at)).expect("scratch file");
                    f.write_all(v).expect("scratch file");
                    at += v.len() as u64;
                }
                Pay(n) => at += n,
            }
        }
        f.set_len(at).ok()?;
        Some(me)
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
/// Bytes read so far by this process, or None where the system does not tell.
fn rchar() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/io").ok()?;
    s.lines().find_map(|l| l.strip_prefix("rchar: ")).and_then(|n| n.trim().parse().ok())
}
/// 0 `MediaSource::open`, 1 `AsyncMediaSource::open`, 2 `read_exif`/`read_track`, 3 the async
/// ones, 4 `read_exif_iter`/`read_metadata`, 5 the async ones, 6 `parse_image_metadata` and a
/// `File` as a seekable source.
const DOORS: usize = 7;
/// What a door yields for a file: something comparable and whether it is metadata.
fn through(door: usize, path: &std::path::Path, image: bool, rt: &tokio::runtime::Runtime) -> (bool, u64) {
    let e = |e: Error| Raw::Err(eclass(&e));
    let whole_exif = |r: nom_exif::Result<Exif>| match r {
        Ok(x) => {
            let mut v: Vec<String> = x.iter().map(|e| format!("{} {:?} {}", e.ifd, e.tag, e.value)).collect();
            v.sort();
            (true, fp(&(v, x.errors().len(), x.gps_info().map(|g| g.to_iso6709()))))
        }
        Err(x) => (false, fp(&eclass(&x))),
    };
    let mut p = MediaParser::new();
    match (door, image) {
        (0, true) => consume(MediaSource::open(path).and_then(|m| p.parse_exif(m)).map(Raw::Exif).unwrap_or_else(e)),
        (0, false) => consume(MediaSource::open(path).and_then(|m| p.parse_track(m)).map(Raw::Track).unwrap_or_else(e)),
        (1, true) => rt.block_on(async {
            consume(match AsyncMediaSource::open(path).await {
                Ok(m) => p.parse_exif_async(m).await.map(Raw::Exif).unwrap_or_else(e),
                Err(x) => e(x),
            })
        }),
        (1, false) => rt.block_on(async {
            consume(match AsyncMediaSource::open(path).await {
                Ok(m) => p.parse_track_async(m).await.map(Raw::Track).unwrap_or_else(e),
                Err(x) => e(x),
            })
        }),
        (2, true) => whole_exif(read_exif(path)),
        (2, false) => consume(read_track(path).map(Raw::Track).unwrap_or_else(e)),
        (3, true) => rt.block_on(async { whole_exif(read_exif_async(path).await) }),
        (3, false) => rt.block_on(async { consume(read_track_async(path).await.map(Raw::Track).unwrap_or_else(e)) }),
        (4, true) => consume(read_exif_iter(path).map(Raw::Exif).unwrap_or_else(e)),
        (4, false) => match read_metadata(path) {
            Ok(Metadata::Track(t)) => consume(Raw::Track(t)),
            Ok(_) => (false, 1),
            Err(x) => consume(e(x)),
        },
        (5, true) => consume(rt.block_on(async { read_exif_iter_async(path).await.map(Raw::Exif).unwrap_or_else(e) })),
        (5, false) => rt.block_on(async {
            match read_metadata_async(path).await {
                Ok(Metadata::Track(t)) => consume(Raw::Track(t)),
                Ok(_) => (false, 1),
                Err(x) => consume(e(x)),
            }
        }),
        (_, true) => consume(MediaSource::open(path).and_then(|m| p.parse_image_metadata(m)).map(Raw::Meta).unwrap_or_else(e)),
        (_, false) => {
            let r = std::fs::File::open(path).map_err(Error::from).and_then(MediaSource::seekable);
            consume(r.and_then(|m| p.parse_track(m)).map(Raw::Track).unwrap_or_else(e))
        }
    }
}

/// Real files: what opening by name and the one-call helpers read of them.
fn paths(t: Tier) -> Space {
    let mut s = paths_space(t);
    s.limit_s = 600;
    s
}
fn paths_space(t: Tier) -> Space {
    let sizes: &'static [u64] = t.pick(
        &[200_000, 3 << 20, 30 << 20, 1 << 30, 5 << 30][..],
        &[20_000, 65_536, 200_000, 524_288, 1 << 20, 3 << 20, 30 << 20, 300 << 20, 1 << 30, 0x7fff_ffff, 3 << 30, 5 << 30, 1 << 36][..],
    );
    Space::new(
        "paths",
        "the 17 layouts as files with holes on disk x 5 payload sizes from 200 KB to 5 GB (thorough: 13 from 20 KB to 64 GB) x 7 ways to read by name (open, the one-call helpers, sync and async): the metadata of the file without payload, and the process reads at most the metadata + 20 KiB per piece of payload + 64 KiB. One case: the operating system counts per process",
        1,
        move |_| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
            let mut st = Stats::default();
            for l in LAYS {
                let base = (l.build)(l.min);
                let f = Sparse::new(&base).expect("small scratch file");
                let want: Vec<_> = (0..DOORS).map(|d| through(d, &f.0, l.image, &rt)).collect();
                drop(f);
                for (d, w) in want.iter().enumerate() {
                    if !w.0 {
                        return viol("paths:base", format!("{}: nothing found without payload by way {d}", l.name));
                    }
                }
                for &n in sizes {
                    if n > l.max {
                        continue;
                    }
                    let p = (l.build)(n);
                    let meta: u64 = p.iter().map(|p| if let Meta(v) = p { v.len() as u64 } else { 0 }).sum();
                    let Some(f) = Sparse::new(&p) else { continue };
                    for (d, want) in want.iter().enumerate() {
                        let a = rchar();
                        let got = through(d, &f.0, l.image, &rt);
                        let b = rchar();
                        st.note(got.0, fp(&(got, d)));
                        let key = format!("paths:{}:{n}:{d}", l.name);
                        if got != *want {
                            return viol(key, format!("{} of {n} bytes, way {d}: not the metadata of the file without payload", l.name));
                        }
                        let lim = meta + 20 * 1024 * (l.units + 1) + (64 << 10);
                        if let (Some(a), Some(b)) = (a, b) {
                            if b - a > lim {
                                return viol(key, format!("{} with {n} bytes of payload, way {d}: {} bytes read, limit {lim}", l.name, b - a));
                            }
                        }
                    }
                }
            }
            Ok(st)
        },
        |_| "all layouts, sizes and ways".into(),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![declared(t), skipped(t), pieces(t), retained(t), paths(t)];
    v.extend(overlap(t));
    (
        "exploration",
        v,
        vec![
            "what lies in front of the tables of a HEIF file or the movie box of a CR3 file is read through",
            "Matroska clusters in front of the tracks are read through",
            "the limits are the observed constants of the library (8 KiB first read, 16 KiB growth, 64 KiB capped preallocation, 256 KiB skip blocks) with a margin",
        ],
    )
}
