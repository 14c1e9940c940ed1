//! C03 — read schedules.
use super::Spec;
use crate::corpus::*;
use crate::engine::*;
use crate::io::*;
use crate::outcome::*;
use nom_exif::MediaParser;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub const MODES: [(bool, bool); 4] = [(false, true), (false, false), (true, true), (true, false)];
pub fn mode_name(m: (bool, bool)) -> &'static str {
    match m {
        (false, true) => "sync seekable",
        (false, false) => "sync unseekable",
        (true, true) => "async seekable",
        (true, false) => "async unseekable",
    }
}
pub fn run_mode(p: &mut MediaParser, r: Rd, m: (bool, bool), api: Api) -> Out {
    if m.0 {
        parse_rd_async(p, r, m.1, api)
    } else {
        parse_rd(p, r, m.1, api)
    }
}
fn apis(s: &Seed) -> &'static [Api] {
    if !s.image {
        &[Api::Track]
    } else if s.name.starts_with("motion") {
        &[Api::Exif, Api::Track, Api::Meta]
    } else {
        &[Api::Exif, Api::Meta]
    }
}
fn reference(d: &Data, m: (bool, bool), api: Api) -> Out {
    let (r, _) = Rd::new(d.clone(), Policy::Full);
    run_mode(&mut MediaParser::new(), r, m, api)
}

/// corpus plus a few cut and damaged files: errors must be stable as well
fn files() -> Vec<Seed> {
    let mut v = all();
    let small = small();
    for name in ["tiff-le", "jpeg", "png", "heic", "cr3", "raf", "mp4", "mkv"] {
        let s = small.iter().find(|s| s.name == name).unwrap();
        for (num, den) in [(1, 3), (2, 3), (9, 10)] {
            let mut c = s.clone();
            c.data.truncate(s.data.len() * num / den);
            c.name = format!("{name}-cut{num}/{den}");
            v.push(c);
        }
    }
    v.push(Seed { name: "empty".into(), data: vec![], image: true, has: false });
    v.push(Seed { name: "one-byte".into(), data: vec![0xff], image: true, has: false });
    v.push(Seed { name: "garbage".into(), data: vec![0x33; 300], image: true, has: false });
    v
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![];
    let fs = Arc::new(files());
    // 1. choice tree over the answers of every read
    for (nm, bound, pred) in [
        ("tree-small", t.pick(3usize, 4), false),
        ("tree-large", 2usize, true),
    ] {
        let mut cases = vec![];
        for (k, s) in fs.iter().enumerate() {
            if (s.data.len() > 4096) != pred {
                continue;
            }
            for m in MODES {
                for a in apis(s) {
                    cases.push((k, m, *a));
                }
            }
        }
        let cases = Arc::new(cases);
        let data1: Vec<Data> = fs.iter().map(|s| Arc::new(s.data.clone())).collect();
        let (f1, c1) = (fs.clone(), cases.clone());
        let (f2, c2) = (fs.clone(), cases.clone());
        let mut sp = Space::new(
            nm,
            format!("every file x mode x entry point: depth-first over all answers (full, 1 byte, half, interrupted/pending; asynchronous seeks immediate or pending) to every read with at most {bound} deviations from full delivery"),
            cases.len() as u64,
            move |i| {
                let (k, m, api) = c1[i as usize];
                let d = data1[k].clone();
                let want = reference(&d, m, api);
                explore(bound, |ch| {
                    let c = Rc::new(RefCell::new(std::mem::replace(ch, Chooser::replay(vec![]))));
                    let (r, _) = Rd::new(d.clone(), Policy::Tree(c.clone(), TREE_ALTS));
                    let got = run_mode(&mut MediaParser::new(), r, m, api);
                    std::mem::swap(ch, &mut c.borrow_mut());
                    if got != want {
                        let sched: Vec<u32> = ch.trail.iter().map(|x| x.0).collect();
                        return viol(
                            format!("{nm}:{}:{}:{api:?}", f1[k].name, mode_name(m)),
                            format!("schedule {sched:?}: {}", diff(&got, &want)),
                        );
                    }
                    Ok((!got.is_err(), fp(&(k, m, api, ch.trail.iter().map(|x| x.0).collect::<Vec<_>>()))))
                })
            },
            move |i| {
                let (k, m, api) = c2[i as usize];
                format!("{} {} {api:?}", f2[k].name, mode_name(m))
            },
        );
        sp.limit_s = 600;
        v.push(sp);
    }
    // 2. uniform chunk sizes
    {
        let sizes: Vec<usize> = match t {
            Tier::Quick => vec![1, 2, 3, 5, 7, 13, 31, 64, 100, 127, 128, 129, 255, 1000, 4096, 8191, 8192, 8193, 16383, 16384, 16385],
            Tier::Thorough => (1..=300).chain((1..64).map(|k| k * 256 - 1)).chain((1..64).map(|k| k * 256)).chain((1..64).map(|k| k * 256 + 1)).collect(),
        };
        let mut cases = vec![];
        for (k, s) in fs.iter().enumerate() {
            for m in MODES {
                for a in apis(s) {
                    cases.push((k, m, *a));
                }
            }
        }
        let n = (cases.len() * sizes.len() * 2) as u64;
        let cases = Arc::new(cases);
        let sizes = Arc::new(sizes);
        let data1: Vec<Data> = fs.iter().map(|s| Arc::new(s.data.clone())).collect();
        let (f1, c1, z1) = (fs.clone(), cases.clone(), sizes.clone());
        let (f2, c2, z2) = (fs.clone(), cases, sizes);
        v.push(Space::new(
            "chunks",
            "every file x mode x entry point x uniform chunk size, with and without an interruption/pending poll before every read and seek",
            n,
            move |i| {
                let mut x = Mix(i);
                let intr = x.b();
                let z = *x.of(&z1);
                let (k, m, api) = *x.of(&c1);
                let d = data1[k].clone();
                let want = reference(&d, m, api);
                let pol = if intr { Policy::ChunkIntr(z) } else { Policy::Chunk(z) };
                let (r, log) = Rd::new(d, pol);
                let got = run_mode(&mut MediaParser::new(), r, m, api);
                if got != want {
                    return viol(
                        format!("chunks:{}:{}:{api:?}:{z}:{intr}", f1[k].name, mode_name(m)),
                        diff(&got, &want),
                    );
                }
                let steps = log.borrow().ops;
                Ok(Stats { execs: 2, steps, nontrivial: !got.is_err() as u64, fps: vec![fp(&(z, intr, k, m, got.fp()))] })
            },
            move |i| {
                let mut x = Mix(i);
                let intr = x.b();
                let z = *x.of(&z2);
                let (k, m, api) = *x.of(&c2);
                format!("{} {} {api:?} chunk {z} interruptions {intr}", f2[k].name, mode_name(m))
            },
        ));
    }
    // 3. all cyclic patterns
    {
        let alpha: &'static [usize] = &[0, 1, 2, 5, 120, 8200];
        let plen = t.pick(3usize, 4);
        let mut pats: Vec<Vec<usize>> = vec![];
        for l in 1..=plen {
            for mut c in 0..alpha.len().pow(l as u32) {
                let mut p = vec![];
                for _ in 0..l {
                    p.push(alpha[c % alpha.len()]);
                    c /= alpha.len();
                }
                if p.iter().any(|x| *x > 0) {
                    pats.push(p);
                }
            }
        }
        let mut cases = vec![];
        for (k, s) in fs.iter().enumerate() {
            if s.data.len() > 4096 && t == Tier::Quick && !["png-far", "heic-far", "mov-far", "webm-seek-far"].contains(&s.name.as_str()) {
                continue;
            }
            for m in MODES {
                cases.push((k, m, if s.image { Api::Exif } else { Api::Track }));
            }
        }
        let n = (pats.len() * cases.len()) as u64;
        let (pats, cases) = (Arc::new(pats), Arc::new(cases));
        let data1: Vec<Data> = fs.iter().map(|s| Arc::new(s.data.clone())).collect();
        let (f1, c1, p1) = (fs.clone(), cases.clone(), pats.clone());
        let (f2, c2, p2) = (fs.clone(), cases, pats);
        v.push(Space::new(
            "cycles",
            format!("every cyclic pattern of length <= {plen} over read sizes {alpha:?} (0 = interrupted/pending)"),
            n,
            move |i| {
                let mut x = Mix(i);
                let (k, m, api) = *x.of(&c1);
                let pat = x.of(&p1).clone();
                let d = data1[k].clone();
                let want = reference(&d, m, api);
                let (r, log) = Rd::new(d, Policy::Cycle(pat.clone()));
                let got = run_mode(&mut MediaParser::new(), r, m, api);
                if got != want {
                    return viol(format!("cycles:{}:{}:{pat:?}", f1[k].name, mode_name(m)), diff(&got, &want));
                }
                let steps = log.borrow().ops;
                Ok(Stats { execs: 2, steps, nontrivial: !got.is_err() as u64, fps: vec![fp(&(k, m, &pat))] })
            },
            move |i| {
                let mut x = Mix(i);
                let (k, m, api) = *x.of(&c2);
                format!("{} {} {api:?} pattern {:?}", f2[k].name, mode_name(m), x.of(&p2))
            },
        ));
    }
    (
        "exploration",
        v,
        vec!["a reader that answers 0 bytes to a non-empty read is at the end of its data (std contract)"],
    )
}
