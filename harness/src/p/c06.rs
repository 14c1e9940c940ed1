//! C06 — iterator histories.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::{Exif, ExifIter, MediaParser};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    /// three entries at once
    Next3,
    /// all remaining entries, and two more calls
    Exhaust,
    Rewind,
    /// switch to a clone, keep the original aside
    Clone,
    CloneRewound,
    /// switch between the iterators
    Switch,
    Gps,
    /// collect a clone
    Collect,
    /// size_hint / Debug / take through by_ref
    Look,
}
const OPS: [Op; 10] = [
    Op::Next,
    Op::Next3,
    Op::Exhaust,
    Op::Rewind,
    Op::Clone,
    Op::CloneRewound,
    Op::Switch,
    Op::Gps,
    Op::Collect,
    Op::Look,
];

/// directories that refer to each other in every way
pub fn tangled() -> Dir {
    dir(vec![
        en(0x0110, Val::s("M1")),
        sub(
            EXIF_PTR,
            dir(vec![
                en(0x829a, Val::URat(vec![(1, 250)])),
                raw(0x9205, 5, 1, 0xffff_0000),
                en(0x9003, Val::s("2023:07:09 20:36:33")),
            ]),
        ),
        en(0x010f, Val::s("ACME")),
        sub(GPS_PTR, sample_gps()),
        // the same directory a second time
        En { tag: EXIF_PTR, k: Ek::SubRef(1) },
        en(0x010f, Val::s("Second")),
        raw(0x0115, 77, 1, 0),
    ])
    .with_next(dir(vec![en(0x0103, Val::U16(vec![6])), raw(0x0111, 4, 9, 0x7fff_ffff)]).with_next(dir(vec![en(0x0103, Val::U16(vec![7]))])))
}
pub fn files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    v.push(("tiff".into(), tiff_le()));
    v.push(("tangled-be".into(), tiff(&tangled(), &Lay::new(true)).bytes));
    v.push(("cr3".into(), Cr3::new(cr3_blocks()).build()));
    // several blocks, each with sub-directories, GPS only in the second
    let second = dir(vec![
        en(0x829a, Val::URat(vec![(1, 8)])),
        sub(GPS_PTR, sample_gps()),
        en(0x010f, Val::s("Shadowed")),
    ]);
    let blocks = vec![
        (*b"CMT1", tiff(&tiny_dir(), &Lay::new(false)).bytes),
        (*b"CMT2", tiff(&second, &Lay::new(true)).bytes),
        (*b"CMT4", tiff(&tangled(), &Lay::new(false)).bytes),
    ];
    v.push(("cr3-gps2".into(), Cr3::new(blocks).build()));
    let blocks = vec![
        (*b"CMT1", tiff(&tiny_dir(), &Lay::new(false)).bytes),
        (*b"CMT2", b"no tiff at all".to_vec()),
        (*b"CMT3", tiff(&tiny_dir(), &Lay::new(false)).bytes),
    ];
    v.push(("cr3-badblock".into(), Cr3::new(blocks).build()));
    v.push(("motion".into(), motion_photo(&tiff_be(), &[jfif()], 50, &mp4(&moov_full(), 0, 64, false))));
    // nothing in it, and a table cut off by the end of the data
    v.push(("empty-dir".into(), tiff(&dir(vec![]), &Lay { tail: 130, ..Lay::new(false) }).bytes));
    let mut c = tiff_wide(0, Order::DirsThenVals);
    c.truncate(150);
    v.push(("cut".into(), c));
    v
}

struct Model {
    all: Vec<Ent>,
    gps: Res<Option<String>>,
    track: bool,
    coll: String,
}
fn coll(e: &Exif) -> String {
    let mut v: Vec<String> = e.iter().map(|x| format!("{}/{:?}={:?}", x.ifd, x.tag, x.value)).collect();
    v.sort();
    format!("{v:?} {:?} {:?} {}", e.errors(), e.gps_info().map(|g| format!("{g:?}")), e.has_embedded_track())
}
fn open(d: &Data) -> ExifIter {
    match parse_raw(&mut MediaParser::new(), d, Src::Mem, Api::Exif) {
        Raw::Exif(i) => i,
        _ => panic!("harness: no exif"),
    }
}

fn run(d: &Data, m: &Model, seq: &[Op]) -> Result<Vec<(usize, usize)>, String> {
    let mut cur = (open(d), 0usize);
    let mut other: Option<(ExifIter, usize)> = None;
    let mut states = vec![];
    for (step, op) in seq.iter().enumerate() {
        let at = |s: String| format!("step {step} {op:?}: {s}");
        let next = |c: &mut (ExifIter, usize)| -> Result<(), String> {
            let g = c.0.next().map(|e| ent(&e));
            if g.as_ref() != m.all.get(c.1) {
                return Err(format!("yields {g:?} instead of {:?}", m.all.get(c.1)));
            }
            c.1 = (c.1 + 1).min(m.all.len());
            Ok(())
        };
        match op {
            Op::Next => next(&mut cur).map_err(at)?,
            Op::Next3 => {
                for _ in 0..3 {
                    next(&mut cur).map_err(at)?
                }
            }
            Op::Exhaust => {
                while cur.1 < m.all.len() {
                    next(&mut cur).map_err(at)?
                }
                next(&mut cur).map_err(at)?;
                next(&mut cur).map_err(at)?;
            }
            Op::Rewind => {
                cur.0.rewind();
                cur.1 = 0;
            }
            Op::Clone => {
                let c = cur.0.clone();
                other = Some(std::mem::replace(&mut cur, (c, 0)));
            }
            Op::CloneRewound => {
                let c = cur.0.clone_rewound();
                other = Some(std::mem::replace(&mut cur, (c, 0)));
            }
            Op::Switch => {
                if let Some(o) = other.take() {
                    other = Some(std::mem::replace(&mut cur, o));
                }
            }
            Op::Gps => {
                let g = gps_out(&cur.0);
                if g != m.gps {
                    return Err(at(format!("GPS {g:?} instead of {:?}", m.gps)));
                }
                if cur.0.has_embedded_track() != m.track {
                    return Err(at("embedded-track flag changed".into()));
                }
            }
            Op::Collect => {
                let e: Exif = cur.0.clone().into();
                if coll(&e) != m.coll {
                    return Err(at(format!("collected {} instead of {}", trunc(&coll(&e), 600), trunc(&m.coll, 600))));
                }
            }
            Op::Look => {
                let (lo, hi) = cur.0.size_hint();
                let rest = m.all.len() - cur.1;
                if lo > rest || hi.is_some_and(|h| h < rest) {
                    return Err(at(format!("size hint ({lo}, {hi:?}) with {rest} entries left")));
                }
                let _ = format!("{:?}", cur.0);
            }
        }
        states.push((cur.1, other.as_ref().map(|o| o.1 + 1).unwrap_or(0)));
    }
    // every iterator still yields exactly its remainder, and a clone everything
    let mut its = vec![cur];
    its.extend(other);
    for (mut it, pos) in its {
        let mut c = it.clone();
        let g = drain(&mut c);
        if g != m.all {
            return Err(format!("a clone at the end: {}", diff_entries(&g, &m.all)));
        }
        if c.next().is_some() || c.next().is_some() {
            return Err("an exhausted iterator yields again".into());
        }
        let g = drain(&mut it);
        if g != m.all[pos..] {
            return Err(format!("the rest from {pos}: {}", diff_entries(&g, &m.all[pos..])));
        }
    }
    Ok(states)
}

pub fn spaces(t: Tier) -> Spec {
    let fs: Vec<(String, Data)> = files().into_iter().map(|(n, d)| (n, Arc::new(d))).collect();
    let models: Vec<Model> = fs
        .iter()
        .map(|(_, d)| {
            // each observation from an iterator of its own
            let all = drain(&mut open(d));
            let it = open(d);
            let gps = gps_out(&it);
            let e: Exif = open(d).into();
            Model { all, gps, track: it.has_embedded_track(), coll: coll(&e) }
        })
        .collect();
    let depth = t.pick(5u32, 6);
    let (fs, models) = (Arc::new(fs), Arc::new(models));
    let nops = OPS.len() as u64;
    let total = nops.pow(depth) * fs.len() as u64;
    let dec = move |i: u64, nf: u64| {
        let mut x = i;
        let f = (x % nf) as usize;
        x /= nf;
        let s: Vec<Op> = (0..depth)
            .map(|_| {
                let o = OPS[(x % nops) as usize];
                x /= nops;
                o
            })
            .collect();
        (f, s)
    };
    let (f1, m1) = (fs.clone(), models);
    let (f2, f3) = (fs.clone(), fs.clone());
    let mut v = vec![Space::new(
        "histories",
        format!("{} files (several blocks, damaged entries, repeated directories) x all sequences of {depth} operations from {OPS:?}", fs.len()),
        total,
        move |i| {
            let (f, s) = dec(i, f1.len() as u64);
            match run(&f1[f].1, &m1[f], &s) {
                Ok(st) => Ok(Stats { execs: 1, steps: s.len() as u64, nontrivial: 1, fps: st.into_iter().map(|x| fp(&(f, x))).collect() }),
                Err(e) => viol(format!("histories:{}:{s:?}", f1[f].0), format!("{s:?}: {e}")),
            }
        },
        move |i| {
            let (f, s) = dec(i, f2.len() as u64);
            format!("{} {s:?}", f2[f].0)
        },
    )];
    // from every position of every corpus file
    {
        let mut seeds: Vec<(String, Data)> = fs.iter().cloned().collect();
        for s in all() {
            if s.image && s.has {
                seeds.push((s.name.clone(), Arc::new(s.data.clone())));
            }
        }
        drop(f3);
        let mut cases = vec![];
        for (k, (_, d)) in seeds.iter().enumerate() {
            for p in 0..=drain(&mut open(d)).len() + 1 {
                for a in 0..4 {
                    cases.push((k, p, a));
                }
            }
        }
        let (seeds, cases) = (Arc::new(seeds), Arc::new(cases));
        let (s1, c1) = (seeds.clone(), cases.clone());
        v.push(Space::new(
            "positions",
            "every image of the corpus x every position of iteration x {rewind, clone, GPS look-up, collect the clone}",
            cases.len() as u64,
            move |i| {
                let (k, p, a) = c1[i as usize];
                let d = &s1[k].1;
                let want = drain(&mut open(d));
                let gps = gps_out(&open(d));
                let mut it = open(d);
                for _ in 0..p {
                    it.next();
                }
                let key = || format!("positions:{}:{p}:{a}", s1[k].0);
                let (got, exp) = match a {
                    0 => {
                        it.rewind();
                        (drain(&mut it), &want[..])
                    }
                    1 => (drain(&mut it.clone()), &want[..]),
                    2 => {
                        let g = gps_out(&it);
                        if g != gps {
                            return viol(key(), format!("GPS {g:?} at position {p}, {gps:?} at the start"));
                        }
                        (drain(&mut it), &want[p.min(want.len())..])
                    }
                    _ => {
                        let e: Exif = it.clone().into();
                        let f: Exif = open(d).into();
                        if coll(&e) != coll(&f) {
                            return viol(key(), "a clone collects to something else");
                        }
                        (drain(&mut it), &want[p.min(want.len())..])
                    }
                };
                if got != exp {
                    return viol(key(), diff_entries(&got, exp));
                }
                Ok(Stats::one(true, fp(&(k, p, a))))
            },
            move |i| {
                let (k, p, a) = cases[i as usize];
                format!("{} position {p} action {a}", seeds[k].0)
            },
        ));
    }
    (
        "model_checking",
        v,
        vec!["the reference model is the position in the sequence an untouched iterator yields; states are (file, position, position of the second iterator)"],
    )
}
