//! C04 — every read and seek fails once.
use super::c03::{mode_name, run_mode, MODES};
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::*;
use crate::outcome::*;
use nom_exif::MediaParser;
use std::io::ErrorKind;
use std::sync::Arc;

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
];

fn files(t: Tier) -> Vec<Seed> {
    let mut v = all();
    let tf = tiff_le();
    let mut add = |name: &str, image: bool, data: Vec<u8>| {
        v.push(Seed { name: name.into(), data, image, has: true })
    };
    // cut files: the end of the data and the failure compete
    for s in small() {
        if s.name == "tiff-le" || s.name == "png" || s.name == "heic" || s.name == "mkv" || s.name == "mp4" {
            let mut d = s.data.clone();
            d.truncate(d.len() * 2 / 3);
            add(&format!("{}-cut", s.name), s.image, d);
        }
    }
    add("heic-nometa", true, cat(&[ftyp(b"heic", &[b"mif1"]), free(9000), bx(b"mdat", &filler(30_000))]));
    add("cr3-nomoov", true, cat(&[ftyp(b"crx ", &[b"crx "]), free(9000), bx(b"mdat", &filler(30_000))]));
    add("mp4-nomoov", false, cat(&[ftyp(b"mp42", &[b"mp42"]), bx(b"mdat", &filler(30_000))]));
    add("jpeg-none-far", true, jpeg(&[jseg(0xe2, &filler(50_000)), jseg(0xe3, &filler(50_000))], &filler(50_000)));
    add("png-none-far", true, png(&[chunk(b"IDAT", &filler(50_000)), chunk(b"tIME", &filler(7))]));
    add("motion-far2", true, motion_photo(&tf, &[jseg(0xe2, &filler(60_000)), jseg(0xe2, &filler(60_000))], 40_000, &mp4(&moov_full(), 30_000, 0, false)));
    if t == Tier::Thorough {
        for n in [100_000usize, 300_000] {
            for f in 0..super::c02::SHIFT_FORMATS {
                add(&format!("shift{f}-{n}"), f < 12, super::c02::shifted(f, n));
            }
        }
    }
    v
}

/// Paths that cannot be opened or read, through everything that takes a path.
fn paths() -> Space {
    use nom_exif::*;
    const WHAT: u64 = 7;
    const ENTRY: [&str; 12] = [
        "MediaSource::open", "AsyncMediaSource::open", "read_exif", "read_exif_iter", "read_track", "read_metadata", "read_exif_async",
        "read_exif_iter_async", "read_track_async", "read_metadata_async", "MediaSource::seekable", "MediaSource::unseekable",
    ];
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let run = |i: u64| -> CaseResult {
        let mut m = Mix(i);
        let (what, way) = (m.d(WHAT), m.d(ENTRY.len() as u64));
        let s = Scratch(std::env::temp_dir().join(format!("mc-c04-{}-{i}", std::process::id())));
        std::fs::create_dir(&s.0).expect("scratch directory");
        let p = match what {
            0 => s.0.join("missing.jpg"),
            1 => s.0.clone(),
            2 => s.0.join("no/such/directory.heic"),
            3 => {
                let p = s.0.join("dangling.jpg");
                std::os::unix::fs::symlink(s.0.join("nowhere"), &p).expect("scratch link");
                p
            }
            4 => {
                let p = s.0.join("around.mov");
                std::os::unix::fs::symlink(&p, &p).expect("scratch link");
                p
            }
            5 => {
                std::fs::write(s.0.join("file.jpg"), jpeg_with_exif(&tiff_le())).expect("scratch file");
                s.0.join("file.jpg/below.jpg")
            }
            _ => s.0.join("n".repeat(300)),
        };
        // what the system says
        let want = std::fs::read(&p).expect_err("cannot be read").kind();
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        fn un<T>(r: Result<T>) -> Option<Error> {
            r.err()
        }
        let got = match way {
            0 => un(MediaSource::open(&p)),
            1 => rt.block_on(async { un(AsyncMediaSource::open(&p).await) }),
            2 => un(read_exif(&p)),
            3 => un(read_exif_iter(&p)),
            4 => un(read_track(&p)),
            5 => un(read_metadata(&p)),
            6 => rt.block_on(async { un(read_exif_async(&p).await) }),
            7 => rt.block_on(async { un(read_exif_iter_async(&p).await) }),
            8 => rt.block_on(async { un(read_track_async(&p).await) }),
            9 => rt.block_on(async { un(read_metadata_async(&p).await) }),
            k => match std::fs::File::open(&p) {
                Ok(f) if k == 10 => un(MediaSource::seekable(f)),
                Ok(f) => un(MediaSource::unseekable(f)),
                Err(_) => return Ok(Stats::default()),
            },
        };
        let key = format!("paths:{what}:{}", ENTRY[way]);
        match got {
            Some(Error::Io(e)) if e.kind() == want => Ok(Stats::one(true, fp(&(what, way)))),
            Some(e) => viol(key, format!("{e:?} where the system says {want:?}")),
            None => viol(key, format!("succeeds where the system says {want:?}")),
        }
    };
    Space::new(
        "paths",
        "7 paths that cannot be opened or read (missing, a directory, in a missing directory, a dangling link, a link to itself, below a file, too long a name) x everything that takes a path or a file: the system's own error",
        WHAT * ENTRY.len() as u64,
        run,
        |i| {
            let mut m = Mix(i);
            format!("path kind {} through {}", m.d(WHAT), ENTRY[m.d(ENTRY.len() as u64)])
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![];
    let fs = Arc::new(files(t));
    let data: Arc<Vec<Data>> = Arc::new(fs.iter().map(|s| Arc::new(s.data.clone())).collect());
    let mut base: Vec<(usize, (bool, bool), Api, usize, u64)> = vec![];
    let chunks: Vec<usize> = t.pick(vec![usize::MAX, 1000], vec![usize::MAX, 100, 333, 1000, 5000]);
    for (k, s) in fs.iter().enumerate() {
        for m in MODES {
            for api in APIS {
                if s.image && api == Api::Track && !s.name.starts_with("motion") && !s.name.starts_with("jpeg") {
                    continue;
                }
                if !s.image && api == Api::Meta {
                    continue;
                }
                for &c in &chunks {
                    let (r, log) = Rd::new(data[k].clone(), Policy::Chunk(c));
                    let _ = run_mode(&mut MediaParser::new(), r, m, api);
                    let ops = log.borrow().ops;
                    if c != usize::MAX && ops > t.pick(200, 400) {
                        continue;
                    }
                    base.push((k, m, api, c, ops));
                }
            }
        }
    }
    let kinds: usize = t.pick(3, KINDS.len());
    let mut cases = vec![];
    for (b, x) in base.iter().enumerate() {
        for op in 0..x.4 {
            for e in 0..kinds {
                for sticky in [false, true] {
                    if sticky && x.3 != usize::MAX {
                        continue;
                    }
                    cases.push((b as u32, op, e as u8, sticky));
                }
            }
        }
    }
    let n = cases.len() as u64;
    let (base, cases) = (Arc::new(base), Arc::new(cases));
    let after: Arc<Vec<Seed>> = Arc::new(
        all()
            .into_iter()
            .filter(|s| ["jpeg", "heic-far", "png-far", "mp4", "cr3"].contains(&s.name.as_str()))
            .collect(),
    );
    let (f1, b1, c1) = (fs.clone(), base.clone(), cases.clone());
    let (f2, b2, c2) = (fs, base, cases);
    v.push(Space::new(
        "single-fault",
        "every file x mode x entry point x read granularity: (full reads; smaller reads where that makes at most 200 quick / 400 thorough operations): the k-th read or seek fails, for every k the fault-free run performs, with each error kind, once or from then on; afterwards the same parser parses further files",
        n,
        move |i| {
            let (b, op, e, sticky) = c1[i as usize];
            let (k, m, api, c, _) = b1[b as usize];
            let kind = KINDS[e as usize];
            let s = &f1[k];
            let pol = if sticky {
                Policy::FaultFrom(op, kind)
            } else if c == usize::MAX {
                Policy::FaultAt(op, kind)
            } else {
                Policy::ChunkFault(c, op, kind)
            };
            let (r, log) = Rd::new(data[k].clone(), pol);
            let mut p = MediaParser::new();
            let got = run_mode(&mut p, r, m, api);
            let key = || format!("single-fault:{}:{}:{api:?}:{c}:{op}:{kind:?}:{sticky}", s.name, mode_name(m));
            if !log.borrow().faulted {
                return viol(key(), "the run performed fewer operations than the fault-free one: not deterministic");
            }
            let want = format!("Io({kind:?}) of operation {op}");
            if got.err() != Some(want.as_str()) {
                return viol(
                    key(),
                    format!("operation {op} failed with {kind:?}, the call returned {}", trunc(&format!("{got:?}"), 300)),
                );
            }
            // the parser is as good as new
            let a = &after[(i % after.len() as u64) as usize];
            let d = Arc::new(a.data.clone());
            let api2 = if a.image { Api::Exif } else { Api::Track };
            let src = SRCS[(i / after.len() as u64 % 6) as usize];
            let fresh = parse(&d, src, api2);
            let again = parse_on(&mut p, &d, src, api2);
            if fresh != again {
                return viol(key(), format!("after the failure the parser returns something else for {} from {src:?}: {}", a.name, diff(&again, &fresh)));
            }
            let steps = log.borrow().ops;
            Ok(Stats { execs: 3, steps, nontrivial: 1, fps: vec![fp(&(k, m, api, c, op))] })
        },
        move |i| {
            let (b, op, e, sticky) = c2[i as usize];
            let (k, m, api, c, n) = b2[b as usize];
            format!("{} {} {api:?} chunk {c}: operation {op} of {n} fails with {:?} sticky={sticky}", f2[k].name, mode_name(m), KINDS[e as usize])
        },
    ));
    v.push(paths());
    (
        "fault_enumeration",
        v,
        vec!["Interrupted is a retry request and UnexpectedEof an end of data, so neither is injected as a failure"],
    )
}
