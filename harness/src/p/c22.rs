//! C22 — the command-line tool prints what the library returns.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use nom_exif::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn tool() -> PathBuf {
    let v = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(v).join("target/cli/debug/rexiftool")
}

/// A directory of its own for one case, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-c22-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    fn put(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, data).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Opt {
    json: bool,
    no_track: bool,
    no_format: bool,
    thumb: bool,
    full: bool,
}
impl Opt {
    fn of(bits: usize) -> Opt {
        Opt {
            json: bits & 1 != 0,
            no_track: bits & 2 != 0,
            no_format: bits & 4 != 0,
            thumb: bits & 8 != 0,
            full: bits & 16 != 0,
        }
    }
    fn args(&self, short: bool) -> Vec<&'static str> {
        let mut v = vec![];
        if self.json {
            v.push(if short { "-j" } else { "--json" });
        }
        if self.no_track {
            v.push("--no-track");
        }
        if self.no_format {
            v.push("--no-format");
        }
        if self.thumb {
            v.push("--with-thumbnail");
        }
        if self.full {
            v.push("--full");
        }
        v
    }
}

fn run(path: &Path, o: Opt, key: &str) -> std::result::Result<String, Violation> {
    run_in(path.parent().unwrap(), path, o, key)
}
fn run_in(cwd: &Path, path: &Path, o: Opt, key: &str) -> std::result::Result<String, Violation> {
    let out = Command::new(tool())
        .args(o.args(key.len() % 2 == 0))
        .arg("--")
        .arg(path)
        .stdin(Stdio::null())
        .current_dir(cwd)
        .output()
        .expect("rexiftool");
    let err = String::from_utf8_lossy(&out.stderr);
    if err.contains("panicked") || out.status.code().is_none() {
        return viol(key, format!("{o:?}: the tool crashed: {}", trunc(&err, 300)));
    }
    if !out.status.success() {
        return viol(key, format!("{o:?}: exit status {:?}: {}", out.status.code(), trunc(&err, 300)));
    }
    match String::from_utf8(out.stdout) {
        Ok(s) => Ok(s),
        Err(_) => viol(key, "output is not UTF-8"),
    }
}

/// What the library says about one file.
#[derive(Default, Debug)]
struct Found {
    values: Vec<(String, EntryValue)>,
    track: Option<Vec<(String, EntryValue)>>,
    format: Option<Vec<(String, String)>>,
}
fn track_pairs(t: &TrackInfo) -> Vec<(String, EntryValue)> {
    t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
/// `None`: the library refuses the file.
fn library(path: &Path, o: Opt) -> Option<Found> {
    let mut p = MediaParser::new();
    let ms = MediaSource::open(path).ok()?;
    let mut f = Found::default();
    if ms.kind() == MediaKind::Track {
        f.values = track_pairs(&p.parse_track(ms).ok()?);
        return Some(f);
    }
    let m = match p.parse_image_metadata(ms) {
        Ok(m) => m,
        Err(Error::ExifNotFound) => return Some(f),
        Err(_) => return None,
    };
    if let Some(it) = m.exif {
        let has = it.has_embedded_track();
        for e in it {
            if e.ifd() == IfdIndex::THUMBNAIL && !o.thumb {
                continue;
            }
            if let Some(v) = e.value() {
                let name = match ExifTag::from_code(e.tag().code()) {
                    Some(t) => t.name().to_string(),
                    None => format!("Unknown(0x{:04x})", e.tag().code()),
                };
                f.values.push((name, v.clone()));
            }
        }
        if has && !o.no_track {
            f.track = MediaSource::open(path).and_then(|ms| p.parse_track(ms)).ok().map(|t| track_pairs(&t));
        }
    }
    if let (Some(ImageFormatMetadata::Png(t)), false) = (&m.format, o.no_format) {
        let v: Vec<(String, String)> = t.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        if !v.is_empty() {
            f.format = Some(v);
        }
    }
    Some(f)
}

// ---- the documented text form

fn pad(k: &str, w: usize) -> String {
    let mut s = k.to_string();
    for _ in k.chars().count()..w {
        s.push(' ');
    }
    s
}
fn width<'a>(ks: impl Iterator<Item = &'a str>) -> usize {
    let m = ks.map(|k| k.chars().count()).max();
    match m {
        None => 32,
        Some(m) => (m + 1).max(32).min(48),
    }
}
fn pair(out: &mut Vec<String>, k: &str, v: &str, w: usize, full: bool) {
    if v.is_empty() {
        out.push(format!("{}: (empty)", pad(k, w)));
        return;
    }
    let lines: Vec<&str> = v.split('\n').collect();
    let shown = if full { lines.len() } else { lines.len().min(10) };
    for (i, l) in lines[..shown].iter().enumerate() {
        let n = l.chars().count();
        let l = if full || n <= 200 {
            l.to_string()
        } else {
            let h: String = l.chars().take(200).collect();
            format!("{h}… (+{} char{})", n - 200, if n == 201 { "" } else { "s" })
        };
        out.push(if i == 0 { format!("{}: {l}", pad(k, w)) } else { format!("{}{l}", " ".repeat(w + 2)) });
    }
    if shown < lines.len() {
        let r = lines.len() - shown;
        out.push(format!("{}… (+{r} more line{})", " ".repeat(w + 2), if r == 1 { "" } else { "s" }));
    }
}
fn head(t: &str) -> String {
    let mut s = format!("-- {t} ");
    while s.chars().count() < 48 {
        s.push('-');
    }
    s
}
fn text_form(f: &Found, o: Opt) -> String {
    let mut out: Vec<String> = vec![];
    let w = width(f.values.iter().map(|x| x.0.as_str()).chain(f.track.iter().flatten().map(|x| x.0.as_str())));
    if (f.track.is_some() || f.format.is_some()) && !f.values.is_empty() {
        out.push(head("EXIF"));
    }
    for (k, v) in &f.values {
        pair(&mut out, k, &v.to_string(), w, o.full);
    }
    if let Some(t) = &f.track {
        if !out.is_empty() {
            out.push(String::new());
        }
        out.push(head("Embedded Track"));
        for (k, v) in t {
            pair(&mut out, k, &v.to_string(), w, o.full);
        }
    }
    if let Some(t) = &f.format {
        if !out.is_empty() {
            out.push(String::new());
        }
        out.push(head("Format Metadata"));
        let w = width(t.iter().map(|x| x.0.as_str()));
        for (k, v) in t {
            pair(&mut out, k, v, w, o.full);
        }
    }
    out.iter().map(|l| format!("{l}\n")).collect()
}
fn repeated<'a>(mut ks: Vec<&'a str>) -> bool {
    let n = ks.len();
    ks.sort_unstable();
    ks.dedup();
    ks.len() != n
}
/// (value, a name occurs more than once)
fn json_form(f: &Found) -> (serde_json::Value, bool) {
    use serde_json::{to_value, Map, Value};
    let obj = |v: &[(String, EntryValue)]| -> Map<String, Value> { v.iter().map(|(k, v)| (k.clone(), to_value(v).expect("serialises"))).collect() };
    let mut rep = repeated(f.values.iter().map(|x| x.0.as_str()).collect());
    let mut root = obj(&f.values);
    if let Some(t) = &f.track {
        rep |= repeated(t.iter().map(|x| x.0.as_str()).collect());
        root.insert("_embedded_track".into(), Value::Object(obj(t)));
    }
    if let Some(t) = &f.format {
        rep |= repeated(t.iter().map(|x| x.0.as_str()).collect());
        root.insert("_format".into(), Value::Object(t.iter().map(|(k, v)| (k.clone(), Value::String(v.clone()))).collect()));
    }
    (Value::Object(root), rep)
}

fn compare(key: &str, got: &str, path: &Path, o: Opt) -> CaseResult {
    let want = library(path, o);
    let st = Stats::one(want.is_some(), fp(&got.len()) ^ fp(&format!("{o:?}")));
    let Some(f) = want else {
        if !got.trim().is_empty() {
            return viol(key, format!("{o:?}: output for a file the library refuses: {}", trunc(got, 200)));
        }
        return Ok(st);
    };
    if !o.json {
        let w = text_form(&f, o);
        if got != w {
            let k = got.lines().zip(w.lines()).take_while(|(a, b)| a == b).count();
            return viol(
                key,
                format!("{o:?}: line {}: {:?}, expected {:?}", k + 1, got.lines().nth(k).map(|x| trunc(x, 260)), w.lines().nth(k).map(|x| trunc(x, 260))),
            );
        }
        return Ok(st);
    }
    let g: serde_json::Value = match serde_json::from_str(got) {
        Ok(v) => v,
        Err(e) => return viol(key, format!("{o:?}: output is no JSON: {e}")),
    };
    let (w, rep) = json_form(&f);
    if g != w {
        return viol(key, format!("{o:?}: JSON {} expected {}", trunc(&g.to_string(), 300), trunc(&w.to_string(), 300)));
    }
    if rep {
        return viol(
            "json:repeated-names",
            format!("{o:?}: several entries of one name, the JSON output has one of them"),
        );
    }
    Ok(st)
}
fn check_file(key: &str, data: &[u8], o: Opt) -> CaseResult {
    let s = Scratch::new();
    let p = s.put("file.bin", data);
    let got = run(&p, o, key)?;
    compare(key, &got, &p, o)
}

fn fixtures() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    if let Ok(d) = std::fs::read_dir("/repo/testdata") {
        for e in d.flatten() {
            if let (true, Ok(b)) = (e.path().is_file(), std::fs::read(e.path())) {
                if b.len() < 12 << 20 {
                    v.push((e.file_name().to_string_lossy().into_owned(), b));
                }
            }
        }
    }
    v.sort();
    v
}

fn option_files(t: Tier) -> Vec<(String, Vec<u8>)> {
    let mut files: Vec<(String, Vec<u8>)> = all().into_iter().map(|s| (s.name, s.data)).collect();
    files.push(("garbage".into(), filler(500)));
    files.push(("empty".into(), vec![]));
    files.push(("short".into(), b"MM\0".to_vec()));
    // an embedded track that is declared but cannot be had; a thumbnail directory; repeated names
    let x = xmp_seg(" GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"77\">");
    files.push(("broken-motion".into(), cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), x], &filler(90)), filler(300)])));
    files.push(("broken-track".into(), cat(&[ftyp(b"isom", &[b"mp42"]), bx(b"moov", &filler(40)), filler(300)])));
    files.push(("broken-jpeg".into(), cat(&[jpeg_with_exif(&tiff_le())[..100].to_vec(), filler(300)])));
    let d = dir(vec![en(0x010f, Val::s("Main")), en(0x0110, Val::s("M")), en(0xc0de, Val::U8(vec![1, 2, 3])), raw(0x0111, 4, 9, 0x7fff_ffff)])
        .with_next(dir(vec![en(0x010f, Val::s("Thumb")), en(0x0103, Val::U16(vec![6])), en(0xc0df, Val::s("x"))]).with_next(dir(vec![en(0x0131, Val::s("third"))])));
    for be in [false, true] {
        files.push((format!("thumbnail-{be}"), tiff(&d, &Lay { tail: 200, ..Lay::new(be) }).bytes));
    }
    files.push(("png-repeated".into(), png(&[text_chunk("A", b"1"), text_chunk("B", b"2"), text_chunk("A", b"3")])));
    files.push(("png-motionless".into(), png(&[text_chunk("_embedded_track", b"no"), chunk(b"eXIf", &tiff(&d, &Lay::new(true)).bytes)])));
    if t == Tier::Thorough {
        files.extend(fixtures());
    } else {
        files.extend(fixtures().into_iter().filter(|f| f.1.len() < 200_000));
    }
    files
}

/// `--debug` adds a log to the output; what is printed without it stays.
fn debug(t: Tier) -> Space {
    let files = Arc::new(option_files(t));
    let n = files.len() as u64;
    let f2 = files.clone();
    Space::new(
        "debug",
        "every file of the options space x text and JSON x with and without thumbnail entries: with --debug the tool ends with the same status, and prints every line it prints without, in the same order, among the lines of its log",
        n * 4,
        move |i| {
            let mut m = Mix(i);
            let o = Opt { json: m.b(), thumb: m.b(), ..Opt::default() };
            let (name, data) = m.of(&files);
            let (s, cwd) = (Scratch::new(), Scratch::new());
            let p = s.put("file.bin", data);
            let run = |extra: &[&str]| Command::new(tool()).args(o.args(false)).args(extra).arg(&p).stdin(Stdio::null()).current_dir(&cwd.0).output().expect("rexiftool");
            let (plain, log) = (run(&[]), run(&["--debug"]));
            let key = format!("debug:{name}");
            if plain.status.code() != log.status.code() {
                return viol(key, format!("{o:?}: exit status {:?} without --debug, {:?} with it: {}", plain.status.code(), log.status.code(), trunc(&String::from_utf8_lossy(&log.stderr), 300)));
            }
            let (a, b) = (String::from_utf8_lossy(&plain.stdout).into_owned(), String::from_utf8_lossy(&log.stdout).into_owned());
            let mut rest = b.lines();
            for l in a.lines() {
                if !rest.any(|x| x == l) {
                    return viol(key, format!("{o:?}: the line {:?} is missing with --debug", trunc(l, 200)));
                }
            }
            Ok(Stats::one(b.len() > a.len(), fp(&a)))
        },
        move |i| format!("{} {i}", f2[(i / 4) as usize].0),
    )
}

fn options(t: Tier) -> Space {
    let files = option_files(t);
    let n = files.len() as u64;
    let (f1, f2) = (Arc::new(files.clone()), Arc::new(files));
    Space::new(
        "options",
        "every corpus file, damaged and unreadable ones, files with thumbnail and further directories, and the repository's own sample files (quick: those under 200 KB) x all 32 combinations of --json, --no-track, --no-format, --with-thumbnail, --full: output equal to the documented text or JSON form of what the library returns for the file",
        n * 32,
        move |i| {
            let mut m = Mix(i);
            let o = Opt::of(m.d(32));
            let (name, d) = &f1[m.d(n)];
            check_file(&format!("options:{name}:{o:?}"), d, o)
        },
        move |i| {
            let mut m = Mix(i);
            let o = Opt::of(m.d(32));
            format!("{} {o:?}", f2[m.d(n)].0)
        },
    )
}

fn values(t: Tier) -> Vec<Space> {
    // text values and keys around the limits of the text form
    let lens = [0usize, 1, 2, 199, 200, 201, 202, 400, 1000];
    let lines = [1usize, 2, 9, 10, 11, 12, 30];
    let a = Space::new(
        "long-values",
        "PNG texts of 0 to 1000 characters (ASCII and Latin-1) in 1 to 30 lines, last line empty or not, text first or last of two, Exif present or not, with and without --full and --json",
        9 * 7 * 2 * 2 * 2 * 4,
        move |i| {
            let mut m = Mix(i);
            let l = *m.of(&lens);
            let n = *m.of(&lines);
            let latin = m.b();
            let tail = m.b();
            let exif = m.b();
            let o = Opt { json: m.b(), full: m.b(), ..Opt::default() };
            let ch = if latin { 0xe9u8 } else { b'a' };
            let mut v: Vec<u8> = vec![];
            for k in 0..n {
                if k > 0 {
                    v.push(b'\n');
                }
                // lines of different length around l
                v.extend(std::iter::repeat(ch).take((l + k % 3).saturating_sub(1)));
            }
            if tail {
                v.push(b'\n');
            }
            let mut c = vec![text_chunk("Title", &v), text_chunk("Other", b"after")];
            if exif {
                c.push(chunk(b"eXIf", &tiff_le()));
            }
            check_file("long-values", &png(&c), o)
        },
        |i| format!("index {i}"),
    );
    let step = t.pick(3usize, 1);
    let b = Space::new(
        "key-widths",
        "PNG keys of 1 to 79 characters (quick every third) next to a short or an equally long key, ASCII and Latin-1, with and without Exif entries, text and JSON",
        (79 / step as u64 + 1) * 2 * 2 * 2 * 2,
        move |i| {
            let mut m = Mix(i);
            let k = (m.d(79 / step as u64 + 1) * step + 1).min(79);
            let latin = m.b();
            let short = m.b();
            let exif = m.b();
            let o = Opt { json: m.b(), ..Opt::default() };
            let key: String = std::iter::repeat(if latin { '\u{e9}' } else { 'k' }).take(k).collect();
            let kb: Vec<u8> = key.chars().map(|c| c as u32 as u8).collect();
            let mut body = kb.clone();
            body.push(0);
            body.extend_from_slice(b"value\nsecond");
            let mut c = vec![chunk(b"tEXt", &body)];
            if short {
                c.push(text_chunk("s", b"short"));
            }
            if exif {
                c.push(chunk(b"eXIf", &tiff_le()));
            }
            check_file("key-widths", &png(&c), o)
        },
        |i| format!("index {i}"),
    );
    // every kind of EXIF value
    let kinds: Vec<Val> = {
        let mut v = vec![];
        for f in 1..=12usize {
            for n in [1usize, 2, 3, 60, 300] {
                for k in 0..2 {
                    v.push(super::c07::val(f, n, k));
                }
            }
        }
        v.push(Val::s(""));
        v.push(Val::s("a\nb\nc"));
        v.push(Val::s(&"line\n".repeat(25)));
        v.push(Val::s(&"x".repeat(500)));
        v.push(Val::s("\u{1b}[31mred\t\"quoted\" \\ back"));
        v
    };
    let nk = kinds.len() as u64;
    let (k1, k2) = (Arc::new(kinds.clone()), Arc::new(kinds));
    let c = Space::new(
        "value-kinds",
        "every EXIF format with 1, 2, 3, 60 and 300 components and awkward texts, under a known and an unknown tag, in the main, Exif, GPS and thumbnail directory x 5 option sets",
        nk * 2 * 4 * 5,
        move |i| {
            let mut m = Mix(i);
            let o = Opt::of(*m.of(&[0usize, 1, 8, 16, 9]));
            let v = m.of(&k1).clone();
            let tag = *m.of(&[0x010eu16, 0xc0de]);
            let e = en(tag, v);
            let d = match m.d(4) {
                0 => dir(vec![e]),
                1 => dir(vec![sub(EXIF_PTR, dir(vec![e]))]),
                2 => dir(vec![sub(GPS_PTR, dir(vec![e]))]),
                _ => dir(vec![en(0x0110, Val::s("m"))]).with_next(dir(vec![e])),
            };
            check_file("value-kinds", &jpeg_with_exif(&tiff(&d, &Lay::new(i % 2 == 0)).bytes).into_iter().chain(filler(200)).collect::<Vec<u8>>(), o)
        },
        move |i| {
            let mut m = Mix(i);
            m.d(5);
            trunc(&format!("{:?}", m.of(&k2)), 100)
        },
    );
    vec![a, b, c]
}

fn directories(t: Tier) -> Space {
    let files: Vec<(&'static str, Vec<u8>)> = vec![
        ("a.jpg", cat(&[jpeg_with_exif(&tiff_le()), filler(200)])),
        ("b.txt", filler(500)),
        ("c.png", png(&[text_chunk("T", b"hello"), chunk(b"eXIf", &tiff_be())])),
        ("d.mp4", mp4(&moov_full(), 9000, 100, false)),
        ("e.empty", vec![]),
        ("f.jpg", cat(&[jpeg_with_exif(&tiff_le())[..90].to_vec()])),
        ("g.heic", Heif { lead: 20_000, ..Heif::new() }.build(&tiff_le())),
        ("h motion.jpg", motion_photo(&tiff_le(), &[jfif()], 50, &mp4(&moov_full(), 0, 64, false))),
        ("i.mp4", cat(&[ftyp(b"isom", &[b"mp42"]), bx(b"moov", &filler(40)), filler(300)])),
        ("j.jpg", cat(&[vec![0xff, 0xd8, 0xff, 0xe1, 0, 0], vec![0; 300]])),
        ("k.jpg", jpeg(&[jfif()], &filler(300))),
        ("l.mkv", cat(&[vec![0x1a, 0x45, 0xdf, 0xa3, 0x42, 0x82], vec![0; 300]])),
        ("m.heic", cat(&[ftyp(b"heic", &[b"mif1"]), fbx(b"meta", 0, 0, &filler(60)), filler(300)])),
        ("sub", vec![]),
    ];
    let k = t.pick(2u32, 4);
    let sets: Arc<Vec<u64>> = Arc::new((0..1u64 << files.len()).filter(|s| s.count_ones() <= k || s.count_zeros() - (64 - files.len() as u32) <= k).collect());
    let nsub = sets.len() as u64;
    let s2 = sets.clone();
    let opts = t.pick(2u64, 6);
    Space::new(
        "directories",
        format!("every subset of 13 files (readable images and tracks, files failing in every way the library reports: unknown type, empty, cut off, malformed, without metadata) and a subdirectory that holds or lacks at most {k} of them, created in both orders x option sets: one section per file, each equal to the documented form of what the library returns for that file"),
        nsub * 2 * opts,
        move |i| {
            let mut m = Mix(i);
            let set = *m.of(&sets);
            let rev = m.b();
            let o = Opt::of([0, 1, 8, 2, 4, 16][m.d(opts)]);
            let s = Scratch::new();
            let d = s.0.join("dir");
            std::fs::create_dir(&d).expect("dir");
            let mut names: Vec<&(&str, Vec<u8>)> = files.iter().enumerate().filter(|(k, _)| set >> k & 1 != 0).map(|(_, f)| f).collect();
            if rev {
                names.reverse();
            }
            for (n, b) in &names {
                if *n == "sub" {
                    std::fs::create_dir(d.join(n)).expect("dir");
                    std::fs::write(d.join(n).join("inner.jpg"), &files[0].1).expect("file");
                } else {
                    std::fs::write(d.join(n), b).expect("file");
                }
            }
            let key = format!("directories:{set}");
            let got = run(&d, o, &key)?;
            let mut st = Stats::default();
            // split into sections
            let prefix = format!("File: {}/", d.display());
            let mut sections: Vec<(String, Vec<&str>)> = vec![];
            for l in got.lines() {
                if let Some(n) = l.strip_prefix(&prefix) {
                    sections.push((n.to_string(), vec![]));
                } else if let Some(s) = sections.last_mut() {
                    s.1.push(l);
                } else if !l.is_empty() {
                    return viol(key, format!("{o:?}: {l:?} before the first file"));
                }
            }
            let mut seen: Vec<&str> = sections.iter().map(|s| s.0.as_str()).collect();
            seen.sort_unstable();
            let mut want: Vec<&str> = names.iter().map(|n| n.0).filter(|n| *n != "sub").collect();
            want.sort_unstable();
            if seen != want {
                return viol(key, format!("{o:?}: sections {seen:?} for files {want:?}"));
            }
            for (n, lines) in &sections {
                let body = match lines.first() {
                    Some(l) if l.chars().all(|c| c == '-') && !l.is_empty() => &lines[1..],
                    _ => return viol(key, format!("{o:?}: no rule below the name of {n}")),
                };
                let mut body: String = body.iter().map(|l| format!("{l}\n")).collect();
                // one empty line separates the sections
                while body.ends_with("\n\n") || body == "\n" {
                    body.pop();
                }
                st.add(compare(&format!("{key}:{n}"), &body, &d.join(n), o)?);
            }
            st.note(true, fp(&got.len()));
            Ok(st)
        },
        move |i| {
            let mut m = Mix(i);
            format!("set {:#b}", m.of(&s2))
        },
    )
}

/// What a file is called says nothing about what is in it.
fn names() -> Space {
    use std::os::unix::ffi::OsStringExt;
    let long = "n".repeat(240);
    let names: Vec<Vec<u8>> = ["plain.jpg", "UPPER.JPG", "noextension", ".hidden", ".hidden.jpg", "wrong.mp4", "wrong.jpg", "wrong.txt", "wrong.png", "wrong.xmp", "a.tar.gz", "two words.jpg", "\u{fc}ml\u{e4}ut \u{4e2d}.jpg", "-dash.jpg", "--json", "tilde~", "back\\slash", "quote'\".jpg", "tab\t.jpg", "star*?.jpg", "..jpg", "Thumbs.db", &long]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain([b"latin-\xe9.jpg".to_vec(), vec![0xff, 0xfe]])
        .collect();
    let files: Vec<Vec<u8>> = vec![
        cat(&[jpeg_with_exif(&tiff_le()), filler(200)]),
        mp4(&moov_full(), 9000, 100, false),
        png(&[text_chunk("T", b"hello"), chunk(b"eXIf", &tiff_be())]),
        motion_photo(&tiff_le(), &[jfif()], 50, &mp4(&moov_full(), 0, 64, false)),
        mkv("matroska", &[mk_info(Some(1234.0), Some(1_000_000), Some(1)), mk_tracks(&[mk_video(640, 480)])]),
        filler(300),
    ];
    let (n, k) = (names.len() as u64, files.len() as u64);
    let names = Arc::new(names);
    let n2 = names.clone();
    Space::new(
        "names",
        "files of 25 names (upper case, none or another format's extension, hidden, spaces, control characters, other alphabets, not UTF-8, leading dashes, 240 characters) x 6 contents, asked for by full path, by a path relative to the working directory, and as one of the three files of a directory x text and JSON",
        n * k * 6,
        move |i| {
            let mut m = Mix(i);
            let o = Opt::of(m.d(2) as usize);
            let mode = m.d(3);
            let data = m.of(&files);
            let name = m.of(&names);
            let os = std::ffi::OsString::from_vec(name.clone());
            let s = Scratch::new();
            let key = format!("names:{}", String::from_utf8_lossy(name));
            let d = s.0.join("dir");
            std::fs::create_dir(&d).expect("dir");
            let p = d.join(&os);
            std::fs::write(&p, data).expect("file");
            if mode < 2 {
                // names that are not UTF-8 can't be named on the command line
                if p.to_str().is_none() {
                    return Ok(Stats::default());
                }
                let arg = if mode == 0 { p.clone() } else { PathBuf::from(&os) };
                let got = run_in(&d, &arg, o, &key)?;
                return compare(&key, &got, &p, o);
            }
            std::fs::write(d.join("m.jpg"), &files[0]).expect("file");
            std::fs::write(d.join("t.txt"), filler(50)).expect("file");
            let got = run(&d, o, &key)?;
            let mut st = Stats::default();
            // the section of each file stands behind its name, up to the next one's
            let all = [p.clone(), d.join("m.jpg"), d.join("t.txt")];
            let heads: Vec<String> = all.iter().map(|p| format!("File: {}\n", p.display())).collect();
            let starts: Vec<Option<usize>> = heads.iter().map(|h| got.find(h.as_str())).collect();
            for (k, p) in all.iter().enumerate() {
                let Some(at) = starts[k] else {
                    return viol(key, format!("{o:?}: no section for {:?}", p.file_name()));
                };
                let from = at + heads[k].len();
                let to = starts.iter().flatten().copied().filter(|x| *x > at).min().unwrap_or(got.len());
                let sect = &got[from..to];
                let Some((rule, body)) = sect.split_once('\n') else {
                    return viol(key, format!("{o:?}: no rule below {:?}", p.file_name()));
                };
                if rule.is_empty() || rule.chars().any(|c| c != '-') {
                    return viol(key, format!("{o:?}: no rule below {:?}", p.file_name()));
                }
                let mut body = body.to_string();
                while body.ends_with("\n\n") || body == "\n" {
                    body.pop();
                }
                st.add(compare(&key, &body, p, o)?);
            }
            Ok(st)
        },
        move |i| {
            let mut m = Mix(i);
            let (o, mode, f) = (m.d(2), m.d(3), m.d(k));
            format!("{:?}: content {f}, mode {mode}, json {o}", String::from_utf8_lossy(m.of(&n2)))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![options(t), names()];
    v.push(debug(t));
    v.extend(values(t));
    v.push(directories(t));
    (
        "exploration",
        v,
        vec![
            "standard error and the log that --debug adds are not compared",
            "symbolic links and special files in a directory are left out",
        ],
    )
}
