//! C05 — histories of one parser.
use super::Spec;
use crate::corpus::*;
use crate::engine::*;
use crate::io::*;
use crate::outcome::*;
use nom_exif::{Exif, ExifIter, MediaParser};
use std::future::Future;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    Keep,
    /// iterate three entries, then keep
    Advance,
    /// collect into an Exif and keep that
    Collect,
    Drop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Parse(usize, Api, Src, Use),
    /// drop the oldest live result
    DropOldest,
    /// next() once on every live iterator
    AdvanceAll,
    /// replace the oldest live iterator by a clone of it
    CloneOldest,
}

enum Live {
    Iter(ExifIter, usize, usize),
    Coll(Exif, usize),
    Track(nom_exif::TrackInfo, usize),
}

struct World {
    files: Vec<(String, Data)>,
    ops: Vec<Op>,
    /// fresh-parser result of each parse op
    fresh: Vec<Option<Out>>,
}

fn entries(o: &Out) -> &[Ent] {
    match o.exif() {
        Some(e) => &e.entries,
        None => &[],
    }
}
fn collected(e: &Exif) -> Vec<(usize, u16, String)> {
    let mut v: Vec<_> = e
        .iter()
        .map(|x| (x.ifd.as_usize(), x.tag.code(), format!("{:?}", x.value)))
        .collect();
    v.sort();
    v
}
fn want_collected(es: &[Ent]) -> Vec<(usize, u16, String)> {
    let mut v: Vec<_> = es
        .iter()
        .filter_map(|e| e.val.as_ref().ok().map(|x| (e.ifd, e.code, x.clone())))
        .collect();
    v.sort();
    v
}

fn world(names: &[&str], srcs: &[Src], uses: &[Use], extra: &[Op], more: Vec<(String, Data, Api)>) -> World {
    let seeds = all();
    let mut files = vec![];
    let mut plan = vec![];
    for n in names {
        let (n0, cut) = match n.split_once('/') {
            Some((a, b)) => (a, b.parse::<usize>().unwrap()),
            None => (*n, 100),
        };
        let s = seeds.iter().find(|s| s.name == n0).unwrap_or_else(|| panic!("harness: no seed {n0}"));
        let mut d = s.data.clone();
        d.truncate(d.len() * cut / 100);
        files.push((n.to_string(), Arc::new(d)));
        let k = files.len() - 1;
        if !s.image {
            plan.push((k, Api::Track));
        } else if n0.starts_with("motion") {
            plan.push((k, Api::Exif));
            plan.push((k, Api::Track));
        } else if n0.starts_with("png") {
            plan.push((k, Api::Meta));
        } else {
            plan.push((k, Api::Exif));
        }
    }
    for (n, d, a) in more {
        files.push((n, d));
        plan.push((files.len() - 1, a));
    }
    let mut ops = vec![];
    for (k, a) in plan {
        for s in srcs {
            for u in uses {
                ops.push(Op::Parse(k, a, *s, *u));
            }
        }
    }
    ops.extend_from_slice(extra);
    let fresh = ops
        .iter()
        .map(|o| match o {
            Op::Parse(k, a, s, _) => Some(parse(&files[*k].1, *s, *a)),
            _ => None,
        })
        .collect();
    World { files, ops, fresh }
}

fn history(w: &World, seq: &[usize]) -> Result<(u64, bool), String> {
    let mut p = MediaParser::new();
    let mut live: Vec<Live> = vec![];
    let mut h = vec![];
    let mut nontrivial = false;
    for (step, &o) in seq.iter().enumerate() {
        let at = |m: String| format!("step {step} {:?}: {m}", w.ops[o]);
        match w.ops[o] {
            Op::Parse(k, a, s, u) => {
                let want = w.fresh[o].as_ref().unwrap();
                let raw = parse_raw(&mut p, &w.files[k].1, s, a);
                match raw {
                    Raw::Err(e) => {
                        if want.err() != Some(e.as_str()) {
                            return Err(at(format!("error {e}, a fresh parser gives {}", trunc(&format!("{want:?}"), 300))));
                        }
                    }
                    Raw::Track(t) => {
                        let got = Out::Track(track_out(&t));
                        if got != *want {
                            return Err(at(diff(&got, want)));
                        }
                        if u != Use::Drop {
                            live.push(Live::Track(t, o));
                        }
                    }
                    Raw::Exif(_) | Raw::Meta(_) => {
                        let (it, text) = match raw {
                            Raw::Exif(i) => (Some(i), None),
                            Raw::Meta(m) => {
                                let f = m.format.clone();
                                (
                                    m.exif,
                                    f.map(|f| match f {
                                        nom_exif::ImageFormatMetadata::Png(p) => {
                                            p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>()
                                        }
                                        _ => vec![],
                                    }),
                                )
                            }
                            _ => unreachable!(),
                        };
                        if let Out::Meta(_, wt) = want {
                            if *wt != text {
                                return Err(at("text chunks differ from a fresh parser's".into()));
                            }
                        }
                        match (it, want.exif()) {
                            (Some(mut it), Some(we)) => {
                                nontrivial |= !live.is_empty();
                                if it.has_embedded_track() != we.has_track || gps_out(&it) != we.gps {
                                    return Err(at("GPS or embedded-track flag differ from a fresh parser's".into()));
                                }
                                match u {
                                    Use::Keep => live.push(Live::Iter(it, 0, o)),
                                    Use::Advance => {
                                        for i in 0..3 {
                                            let g = it.next().map(|e| ent(&e));
                                            if g.as_ref() != we.entries.get(i) {
                                                return Err(at(format!("entry {i}: {g:?} instead of {:?}", we.entries.get(i))));
                                            }
                                        }
                                        live.push(Live::Iter(it, 3.min(we.entries.len()), o))
                                    }
                                    Use::Collect => live.push(Live::Coll(it.into(), o)),
                                    Use::Drop => {
                                        let got = drain(&mut it);
                                        if got != we.entries {
                                            return Err(at(diff_entries(&got, &we.entries)));
                                        }
                                    }
                                }
                            }
                            (None, None) => {}
                            (g, _) => {
                                return Err(at(format!("exif present: {}, fresh parser: {}", g.is_some(), trunc(&format!("{want:?}"), 300))))
                            }
                        }
                    }
                }
            }
            Op::DropOldest => {
                if !live.is_empty() {
                    live.remove(0);
                }
            }
            Op::AdvanceAll => {
                for l in live.iter_mut() {
                    if let Live::Iter(it, pos, o) = l {
                        let es = entries(w.fresh[*o].as_ref().unwrap());
                        let g = it.next().map(|e| ent(&e));
                        if g.as_ref() != es.get(*pos) {
                            return Err(at(format!("live result of {:?} yields {g:?} instead of {:?}", w.ops[*o], es.get(*pos))));
                        }
                        *pos = (*pos + 1).min(es.len());
                    }
                }
            }
            Op::CloneOldest => {
                if let Some(Live::Iter(it, pos, _)) = live.first_mut() {
                    *it = it.clone();
                    *pos = 0;
                }
            }
        }
        // earlier results are undisturbed
        for l in &live {
            match l {
                Live::Iter(it, _, o) => {
                    let es = entries(w.fresh[*o].as_ref().unwrap());
                    let got = drain(&mut it.clone());
                    if got != es {
                        return Err(at(format!("live result of {:?} changed: {}", w.ops[*o], diff_entries(&got, es))));
                    }
                }
                Live::Coll(e, o) => {
                    if collected(e) != want_collected(entries(w.fresh[*o].as_ref().unwrap())) {
                        return Err(at(format!("collected result of {:?} changed", w.ops[*o])));
                    }
                }
                Live::Track(t, o) => {
                    if Out::Track(track_out(t)) != *w.fresh[*o].as_ref().unwrap() {
                        return Err(at(format!("track of {:?} changed", w.ops[*o])));
                    }
                }
            }
            h.push(match l {
                Live::Iter(_, p, o) => (0, *p, *o),
                Live::Coll(_, o) => (1, 0, *o),
                Live::Track(_, o) => (2, 0, *o),
            });
        }
        h.push((9, step, 0));
    }
    // and yield what is left of them
    for l in live {
        if let Live::Iter(mut it, pos, o) = l {
            let es = &entries(w.fresh[o].as_ref().unwrap())[pos..];
            let got = drain(&mut it);
            if got != es {
                return Err(format!("at the end, rest of {:?}: {}", w.ops[o], diff_entries(&got, es)));
            }
        }
    }
    Ok((fp(&(h, seq.last())), nontrivial))
}

fn space(name: &'static str, rule: String, w: World, depth: u32) -> Space {
    let w = Arc::new(w);
    let n = w.ops.len() as u64;
    let total = n.pow(depth);
    let (w1, w2) = (w.clone(), w);
    let dec = move |i: u64| {
        let mut x = i;
        (0..depth)
            .map(|_| {
                let d = (x % n) as usize;
                x /= n;
                d
            })
            .rev()
            .collect::<Vec<usize>>()
    };
    Space::new(
        name,
        format!("{rule}; all {n}^{depth} histories over {n} operations (every prefix is checked after each step)"),
        total,
        move |i| {
            let seq = dec(i);
            match history(&w1, &seq) {
                Ok((f, nt)) => Ok(Stats { execs: 1, steps: depth as u64, nontrivial: nt as u64, fps: vec![f] }),
                Err(m) => viol(
                    format!("{name}:{:?}", seq),
                    format!("history {:?} with files {:?}: {m}", seq.iter().map(|o| w1.ops[*o]).collect::<Vec<_>>(), w1.files.iter().map(|f| &f.0).collect::<Vec<_>>()),
                ),
            }
        },
        move |i| {
            let seq = dec(i);
            format!("{:?}", seq.iter().map(|o| w2.ops[*o]).collect::<Vec<_>>())
        },
    )
}

/// Asynchronous parses abandoned half-way: the future is dropped at the k-th time it is pending.
fn cancelled(t: Tier) -> Space {
    struct Base {
        k: usize,
        api: Api,
        seek: bool,
        chunk: usize,
        polls: usize,
    }
    let mut files: Vec<(Seed, Data)> = all().into_iter().filter(|s| t == Tier::Thorough || s.data.len() < 300_000).map(|s| (s.clone(), Arc::new(s.data))).collect();
    let wide = tiff_wide(5_000_000 / 16, crate::b::Order::Natural);
    files.push((Seed { name: "tiff-5MB".into(), data: vec![], image: true, has: true }, Arc::new(wide)));
    let files = Arc::new(files);
    // how often the whole parse is pending
    fn drive(p: &mut MediaParser, d: &Data, seek: bool, chunk: usize, api: Api, stop: usize) -> (usize, bool) {
        let (r, _) = Rd::new(d.clone(), Policy::ChunkIntr(chunk));
        let mut f = Box::pin(raw_rd_async_fut(p, r, seek, api));
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        for n in 0..=stop {
            if f.as_mut().poll(&mut cx).is_ready() {
                return (n, true);
            }
        }
        (stop, false)
    }
    let mut base = vec![];
    for (k, (s, d)) in files.iter().enumerate() {
        for api in APIS {
            if s.image && api == Api::Track && !s.name.starts_with("motion") || !s.image && api == Api::Meta {
                continue;
            }
            for seek in [true, false] {
                for chunk in t.pick(vec![usize::MAX, 5000], vec![usize::MAX, 5000, 700]) {
                    let polls = drive(&mut MediaParser::new(), d, seek, chunk, api, t.pick(60, 500)).0;
                    base.push(Base { k, api, seek, chunk, polls });
                }
            }
        }
    }
    let mut cases = vec![];
    for (b, x) in base.iter().enumerate() {
        for stop in 0..x.polls {
            cases.push((b, stop));
        }
    }
    let names = ["tiff-le", "jpeg", "heic-far", "png-far", "mp4-far", "motion", "webm-seek", "cr3"];
    let others: Arc<Vec<(Seed, Data)>> = Arc::new(names.iter().map(|n| {
        let s = all().into_iter().find(|s| s.name == *n).unwrap();
        let d = Arc::new(s.data.clone());
        (s, d)
    }).collect());
    let fresh: Arc<Vec<Vec<Out>>> = Arc::new(others.iter().map(|(s, d)| SRCS[..6].iter().map(|x| parse(d, *x, if s.image { Api::Exif } else { Api::Track })).collect()).collect());
    let reps = t.pick(2u64, 8);
    let n = cases.len() as u64 * 3 * reps;
    let (base, cases) = (Arc::new(base), Arc::new(cases));
    let (b2, c2, f2) = (base.clone(), cases.clone(), files.clone());
    Space::new(
        "cancelled",
        format!("every corpus file x asynchronous source x entry point x read granularity: the future is dropped at each of its first {} pending polls, on a fresh parser, on one whose last result has been dropped, and on one whose last result lives: the same parser then gives two further files (8 files x 6 sources in turn) exactly what a fresh one gives, and the result from before is as it was", t.pick(60, 500)),
        n,
        move |i| {
            let mut m = Mix(i);
            let (hist, rep) = (m.d(3), m.d(reps));
            let (b, stop) = cases[m.0 as usize];
            let x = &base[b];
            let key = format!("cancelled:{}:{:?}:{}:{}:{stop}:{hist}:{rep}", files[x.k].0.name, x.api, x.seek, x.chunk);
            let mut p = MediaParser::new();
            let pick = |z: u64| {
                let z = z as usize;
                (z % others.len(), SRCS[z / others.len() % 6])
            };
            let mut before = None;
            if hist > 0 {
                let (o, src) = pick(i / 3 + rep as u64 * 11);
                let r = parse_raw(&mut p, &others[o].1, src, if others[o].0.image { Api::Exif } else { Api::Track });
                let want = &fresh[o][SRCS.iter().position(|s| *s == src).unwrap()];
                if hist == 2 {
                    before = Some((r, want));
                } else if r.norm() != *want {
                    return viol(key, "the parse before");
                }
            }
            // a recycled buffer may save reads, and with them the last polls
            let (_, done) = drive(&mut p, &files[x.k].1, x.seek, x.chunk, x.api, stop);
            for (step, z) in [i / 3 + 5, i / 3 * 7 + 3].into_iter().enumerate() {
                let (o, src) = pick(z);
                let api = if others[o].0.image { Api::Exif } else { Api::Track };
                let got = parse_on(&mut p, &others[o].1, src, api);
                let want = &fresh[o][SRCS.iter().position(|s| *s == src).unwrap()];
                if got != *want {
                    return viol(key, format!("parse {step} afterwards, {} from {src:?}: {}", others[o].0.name, diff(&got, want)));
                }
            }
            if let Some((r, want)) = before {
                let got = r.norm();
                if got != *want {
                    return viol(key, format!("the result from before: {}", diff(&got, want)));
                }
            }
            Ok(Stats { execs: 3, steps: stop as u64 + 3, nontrivial: u64::from(!done), fps: vec![fp(&(b, stop, hist))] })
        },
        move |i| {
            let (b, stop) = c2[(i / 3 / reps) as usize];
            let x = &b2[b];
            format!("{} {:?} seekable {} chunk {}: dropped at poll {stop} of {}", f2[x.k].0.name, x.api, x.seek, x.chunk, x.polls)
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let extra = [Op::DropOldest, Op::AdvanceAll, Op::CloneOldest];
    let many = ["tiff-le", "jpeg", "heic-far", "png-far", "cr3", "raf-far", "motion", "mov-far", "webm-seek", "jpeg-none", "heic-far/60", "tiff-wide/50", "png-far/55", "mp4-far/90"];
    let few = ["tiff-le", "heic-far", "png-far", "cr3", "motion", "mp4-far", "heic-far/60", "png-far/55"];
    let core = ["jpeg", "heic-far", "png-far", "mp4-far/90"];
    let mut v = vec![];
    match t {
        Tier::Quick => {
            v.push(space("pairs", "every file x 6 sources x 4 uses".into(), world(&many, &SRCS[..6], &[Use::Keep, Use::Advance, Use::Collect, Use::Drop], &extra, vec![]), 2));
            v.push(space("triples", "8 files x 3 sources x 2 uses".into(), world(&few, &[Src::Mem, Src::Seek, Src::ANoSeek], &[Use::Advance, Use::Drop], &extra, vec![]), 3));
            v.push(space("long", "4 files x 2 sources x keep/drop".into(), world(&core, &[Src::Mem, Src::NoSeek], &[Use::Keep, Use::Drop], &extra, vec![]), 4));
        }
        Tier::Thorough => {
            v.push(space("pairs", "every file x 6 sources x 4 uses".into(), world(&many, &SRCS[..6], &[Use::Keep, Use::Advance, Use::Collect, Use::Drop], &extra, vec![]), 2));
            v.push(space("triples", "14 files x 5 sources x 2 uses".into(), world(&many, &[Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek, Src::ANoSeek], &[Use::Advance, Use::Drop], &extra, vec![]), 3));
            v.push(space("long", "4 files x 3 sources x keep/drop".into(), world(&core, &[Src::Mem, Src::NoSeek, Src::ASeek], &[Use::Keep, Use::Drop], &extra, vec![]), 4));
            v.push(space("longer", "2 files x 2 sources x keep/drop".into(), world(&["heic-far", "png-far/55"], &[Src::Mem, Src::Seek], &[Use::Keep, Use::Drop], &extra, vec![]), 6));
        }
    }
    // buffers beyond the 4 MiB that the parser is willing to keep
    let big = Arc::new(tiff_wide(5_000_000 / 16, crate::b::Order::Natural));
    let mut s = space(
        "oversized",
        "a file that needs a 5 MB buffer among small ones".into(),
        world(&["jpeg", "heic"], &[Src::Seek], &[Use::Keep, Use::Drop], &[Op::DropOldest], vec![("tiff-5MB".into(), big, Api::Exif)]),
        t.pick(3, 4),
    );
    s.limit_s = 300;
    v.push(s);
    v.push(cancelled(t));
    (
        "model_checking",
        v,
        vec!["the reference model of a history is the list of fresh-parser results; one thread drives a parser (its API takes &mut self)"],
    )
}
