//! Normalised observations of the public API, and every way of supplying bytes.
use crate::engine::fp;
use crate::io::*;
use nom_exif::*;
pub type Res<T> = std::result::Result<T, String>;
use std::io::{Cursor, Read};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ent {
    pub ifd: usize,
    pub code: u16,
    /// Debug rendering of the value (lossless, distinguishes NaN payload-free floats)
    pub val: Res<String>,
}
impl Ent {
    pub fn ok(ifd: usize, code: u16, v: &EntryValue) -> Ent {
        Ent {
            ifd,
            code,
            val: Ok(format!("{v:?}")),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ExifOut {
    pub entries: Vec<Ent>,
    pub gps: Res<Option<String>>,
    pub has_track: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TrackOut {
    pub tags: Vec<(String, String)>,
    pub gps: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Exif(ExifOut),
    Meta(Option<ExifOut>, Option<Vec<(String, String)>>),
    Track(TrackOut),
    Err(String),
}
impl Out {
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
    pub fn err(&self) -> Option<&str> {
        match self {
            Out::Err(e) => Some(e),
            _ => None,
        }
    }
    pub fn fp(&self) -> u64 {
        fp(self)
    }
    pub fn exif(&self) -> Option<&ExifOut> {
        match self {
            Out::Exif(e) => Some(e),
            Out::Meta(Some(e), _) => Some(e),
            _ => None,
        }
    }
}

/// Error class. End of input reached by the parse loop and end of input reported
/// by a reader are one class ("Eof").
pub fn eclass(e: &Error) -> String {
    match e {
        Error::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "Eof".into(),
        Error::Io(e) => match e.get_ref().and_then(|x| x.downcast_ref::<Injected>()) {
            Some(i) => format!("Io({:?}) of operation {}", e.kind(), i.0),
            None => format!("Io({:?})", e.kind()),
        },
        Error::UnsupportedFormat => "Unsupported".into(),
        Error::ExifNotFound => "ExifNotFound".into(),
        Error::TrackNotFound => "TrackNotFound".into(),
        Error::Malformed { kind, .. } => format!("Malformed({kind:?})"),
        Error::UnexpectedEof { .. } => "Eof".into(),
        _ => "Other".into(),
    }
}

/// More entries than any input of the harness can hold: an iterator that reaches
/// this is not going to stop.
pub const MAX_ENTRIES: usize = 2_000_000;

pub fn drain(it: &mut ExifIter) -> Vec<Ent> {
    let mut v = vec![];
    for e in it.by_ref() {
        v.push(ent(&e));
        if v.len() > MAX_ENTRIES {
            panic!("iterator yields without end");
        }
    }
    v
}
pub fn ent(e: &ExifIterEntry) -> Ent {
    Ent {
        ifd: e.ifd().as_usize(),
        code: e.tag().code(),
        val: match e.result() {
            Ok(v) => Ok(format!("{v:?}")),
            Err(e) => Err(format!("{e:?}")),
        },
    }
}

pub fn gps_out(it: &ExifIter) -> Res<Option<String>> {
    match it.parse_gps() {
        Ok(g) => Ok(g.map(|g| format!("{g:?}"))),
        Err(e) => Err(eclass(&e)),
    }
}

pub fn exif_out(mut it: ExifIter) -> ExifOut {
    let gps = gps_out(&it);
    let has_track = it.has_embedded_track();
    ExifOut {
        entries: drain(&mut it),
        gps,
        has_track,
    }
}
pub fn track_out(t: &TrackInfo) -> TrackOut {
    TrackOut {
        tags: t
            .iter()
            .map(|(k, v)| (format!("{k:?}"), format!("{v:?}")))
            .collect(),
        gps: t.gps_info().map(|g| format!("{g:?}")),
    }
}

pub fn norm_exif(r: Result<ExifIter>) -> Out {
    match r {
        Ok(it) => Out::Exif(exif_out(it)),
        Err(e) => Out::Err(eclass(&e)),
    }
}
pub fn norm_meta(r: Result<ImageMetadata<ExifIter>>) -> Out {
    match r {
        Ok(m) => Out::Meta(
            m.exif.map(exif_out),
            m.format.map(|f| match f {
                ImageFormatMetadata::Png(p) => p
                    .iter()
                    .map(|(k, v)| (k.to_string(), v.to_string()))
                    .collect(),
                _ => vec![("?".into(), "?".into())],
            }),
        ),
        Err(e) => Out::Err(eclass(&e)),
    }
}
pub fn norm_track(r: Result<TrackInfo>) -> Out {
    match r {
        Ok(t) => Out::Track(track_out(&t)),
        Err(e) => Out::Err(eclass(&e)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Api {
    Exif,
    Track,
    Meta,
}
pub const APIS: [Api; 3] = [Api::Exif, Api::Track, Api::Meta];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    Mem,
    Seek,
    NoSeek,
    AMem,
    ASeek,
    ANoSeek,
    /// deprecated in-memory entry points
    OldMem,
}
pub const SRCS: [Src; 7] = [
    Src::Mem,
    Src::Seek,
    Src::NoSeek,
    Src::AMem,
    Src::ASeek,
    Src::ANoSeek,
    Src::OldMem,
];
pub const STREAMS: [Src; 4] = [Src::Seek, Src::NoSeek, Src::ASeek, Src::ANoSeek];

/// What a parse call handed out, before it is looked at.
pub enum Raw {
    Exif(ExifIter),
    Track(TrackInfo),
    Meta(ImageMetadata<ExifIter>),
    Err(String),
}
impl Raw {
    pub fn norm(self) -> Out {
        match self {
            Raw::Exif(e) => norm_exif(Ok(e)),
            Raw::Track(t) => norm_track(Ok(t)),
            Raw::Meta(m) => norm_meta(Ok(m)),
            Raw::Err(e) => Out::Err(e),
        }
    }
}
fn raw<T>(r: Result<T>, f: impl FnOnce(T) -> Raw) -> Raw {
    match r {
        Ok(x) => f(x),
        Err(e) => Raw::Err(eclass(&e)),
    }
}
pub fn sync_with<R: Read>(p: &mut MediaParser, api: Api, ms: Result<MediaSource<R>>) -> Raw {
    let ms = match ms {
        Ok(m) => m,
        Err(e) => return Raw::Err(eclass(&e)),
    };
    match api {
        Api::Exif => raw(p.parse_exif(ms), Raw::Exif),
        Api::Track => raw(p.parse_track(ms), Raw::Track),
        Api::Meta => raw(p.parse_image_metadata(ms), Raw::Meta),
    }
}
pub async fn async_with<R: tokio::io::AsyncRead + Unpin + Send>(
    p: &mut MediaParser,
    api: Api,
    ms: Result<AsyncMediaSource<R>>,
) -> Raw {
    let ms = match ms {
        Ok(m) => m,
        Err(e) => return Raw::Err(eclass(&e)),
    };
    match api {
        Api::Exif => raw(p.parse_exif_async(ms).await, Raw::Exif),
        Api::Track => raw(p.parse_track_async(ms).await, Raw::Track),
        Api::Meta => raw(p.parse_image_metadata_async(ms).await, Raw::Meta),
    }
}

/// Parse `data` through the given source kind with an existing parser.
pub fn parse_raw(p: &mut MediaParser, data: &Data, src: Src, api: Api) -> Raw {
    match src {
        Src::Mem => sync_with(p, api, MediaSource::from_memory(data.as_ref().clone())),
        Src::Seek => sync_with(
            p,
            api,
            MediaSource::seekable(Cursor::new(data.as_ref().as_slice())),
        ),
        Src::NoSeek => sync_with(
            p,
            api,
            MediaSource::unseekable(NoSeek(Cursor::new(data.as_ref().as_slice()))),
        ),
        Src::AMem => block_on(async_with(
            p,
            api,
            AsyncMediaSource::from_memory(data.as_ref().clone()),
        )),
        Src::ASeek | Src::ANoSeek => {
            let (r, _) = Rd::new(data.clone(), Policy::Full);
            raw_rd_async(p, r, src == Src::ASeek, api)
        }
        #[allow(deprecated)]
        Src::OldMem => {
            let ms = match MediaSource::<()>::from_bytes(data.as_ref().clone()) {
                Ok(m) => m,
                Err(e) => return Raw::Err(eclass(&e)),
            };
            match api {
                Api::Exif => raw(p.parse_exif_from_bytes(ms), Raw::Exif),
                Api::Track => raw(p.parse_track_from_bytes(ms), Raw::Track),
                // no deprecated twin: same as memory
                Api::Meta => sync_with(p, api, MediaSource::from_memory(data.as_ref().clone())),
            }
        }
    }
}
pub fn parse_on(p: &mut MediaParser, data: &Data, src: Src, api: Api) -> Out {
    parse_raw(p, data, src, api).norm()
}
pub fn parse(data: &Data, src: Src, api: Api) -> Out {
    parse_on(&mut MediaParser::new(), data, src, api)
}
/// Parse through a harness-controlled reader.
pub fn parse_rd(p: &mut MediaParser, r: Rd, seek: bool, api: Api) -> Out {
    if seek {
        sync_with(p, api, MediaSource::seekable(r)).norm()
    } else {
        sync_with(p, api, MediaSource::unseekable(NoSeek(r))).norm()
    }
}
pub fn raw_rd_async(p: &mut MediaParser, r: Rd, seek: bool, api: Api) -> Raw {
    block_on(raw_rd_async_fut(p, r, seek, api))
}
pub async fn raw_rd_async_fut(p: &mut MediaParser, r: Rd, seek: bool, api: Api) -> Raw {
    if seek {
        let ms = AsyncMediaSource::seekable(ARd::new(r)).await;
        async_with(p, api, ms).await
    } else {
        let ms = AsyncMediaSource::unseekable(ANoSeek(ARd::new(r))).await;
        async_with(p, api, ms).await
    }
}
pub fn parse_rd_async(p: &mut MediaParser, r: Rd, seek: bool, api: Api) -> Out {
    raw_rd_async(p, r, seek, api).norm()
}
pub fn kind_of(data: &[u8]) -> String {
    match MediaSource::from_memory(data.to_vec()) {
        Ok(m) => format!("{:?}", m.kind()),
        Err(e) => eclass(&e),
    }
}

/// Short description of the first difference between two observations.
pub fn diff(a: &Out, b: &Out) -> String {
    match (a, b) {
        (Out::Exif(x), Out::Exif(y)) => diff_exif(x, y),
        (Out::Meta(x, tx), Out::Meta(y, ty)) => match (x, y) {
            (Some(x), Some(y)) if x != y => diff_exif(x, y),
            (Some(_), None) => "exif present vs absent".into(),
            (None, Some(_)) => "exif absent vs present".into(),
            _ => format!("text {tx:?} vs {ty:?}"),
        },
        _ => format!(
            "{} vs {}",
            crate::engine::trunc(&format!("{a:?}"), 300),
            crate::engine::trunc(&format!("{b:?}"), 300)
        ),
    }
}
pub fn diff_exif(x: &ExifOut, y: &ExifOut) -> String {
    if x.entries != y.entries {
        return diff_entries(&x.entries, &y.entries);
    }
    if x.gps != y.gps {
        return format!("gps {:?} vs {:?}", x.gps, y.gps);
    }
    format!("has_track {} vs {}", x.has_track, y.has_track)
}
pub fn diff_entries(x: &[Ent], y: &[Ent]) -> String {
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            return format!(
                "entry #{i}: {:?} vs {:?} (lengths {} vs {})",
                x.get(i),
                y.get(i),
                x.len(),
                y.len()
            );
        }
    }
    "same".into()
}
