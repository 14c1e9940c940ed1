//! Builders: files whose meaning is known by construction.
use crate::outcome::Ent;
use nom_exif::{EntryValue, Rational};

// ------------------------------------------------------------------ TIFF

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U8(Vec<u8>),
    Ascii(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    URat(Vec<(u32, u32)>),
    I8(Vec<i8>),
    Undef(Vec<u8>),
    I16(Vec<i16>),
    I32(Vec<i32>),
    IRat(Vec<(i32, i32)>),
    F32(Vec<f32>),
    F64(Vec<f64>),
}
impl Val {
    pub fn s(t: &str) -> Val {
        let mut v = t.as_bytes().to_vec();
        v.push(0);
        Val::Ascii(v)
    }
    pub fn fmt(&self) -> u16 {
        match self {
            Val::U8(_) => 1,
            Val::Ascii(_) => 2,
            Val::U16(_) => 3,
            Val::U32(_) => 4,
            Val::URat(_) => 5,
            Val::I8(_) => 6,
            Val::Undef(_) => 7,
            Val::I16(_) => 8,
            Val::I32(_) => 9,
            Val::IRat(_) => 10,
            Val::F32(_) => 11,
            Val::F64(_) => 12,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Val::U8(v) | Val::Ascii(v) | Val::Undef(v) => v.len(),
            Val::U16(v) => v.len(),
            Val::U32(v) => v.len(),
            Val::URat(v) => v.len(),
            Val::I8(v) => v.len(),
            Val::I16(v) => v.len(),
            Val::I32(v) => v.len(),
            Val::IRat(v) => v.len(),
            Val::F32(v) => v.len(),
            Val::F64(v) => v.len(),
        }
    }
    pub fn bytes(&self, be: bool) -> Vec<u8> {
        let mut o = vec![];
        macro_rules! put {
            ($x:expr) => {
                o.extend_from_slice(&if be { $x.to_be_bytes() } else { $x.to_le_bytes() })
            };
        }
        match self {
            Val::U8(v) | Val::Ascii(v) | Val::Undef(v) => o.extend_from_slice(v),
            Val::U16(v) => v.iter().for_each(|x| put!(x)),
            Val::U32(v) => v.iter().for_each(|x| put!(x)),
            Val::URat(v) => v.iter().for_each(|(a, b)| {
                put!(a);
                put!(b)
            }),
            Val::I8(v) => v.iter().for_each(|x| o.push(*x as u8)),
            Val::I16(v) => v.iter().for_each(|x| put!(x)),
            Val::I32(v) => v.iter().for_each(|x| put!(x)),
            Val::IRat(v) => v.iter().for_each(|(a, b)| {
                put!(a);
                put!(b)
            }),
            Val::F32(v) => v.iter().for_each(|x| put!(x)),
            Val::F64(v) => v.iter().for_each(|x| put!(x)),
        }
        o
    }
    /// The value a reader of the file must obtain; `None` when the API has no
    /// variant for it (or it is empty) and must say so with an error.
    pub fn expect(&self) -> Option<EntryValue> {
        fn text(b: &[u8]) -> String {
            let s: Vec<u8> = b
                .iter()
                .copied()
                .skip_while(|x| *x == 0)
                .take_while(|x| *x != 0)
                .collect();
            String::from_utf8(s.clone())
                .unwrap_or_else(|_| s.iter().map(|b| *b as char).collect())
        }
        if self.count() == 0 {
            return None;
        }
        Some(match self {
            Val::U8(v) if v.len() == 1 => EntryValue::U8(v[0]),
            Val::U8(v) => EntryValue::U8Array(v.clone()),
            Val::Ascii(v) => EntryValue::Text(text(v)),
            Val::U16(v) if v.len() == 1 => EntryValue::U16(v[0]),
            Val::U16(v) => EntryValue::U16Array(v.clone()),
            Val::U32(v) if v.len() == 1 => EntryValue::U32(v[0]),
            Val::U32(v) => EntryValue::U32Array(v.clone()),
            Val::URat(v) if v.len() == 1 => EntryValue::URational(Rational::new(v[0].0, v[0].1)),
            Val::URat(v) => {
                EntryValue::URationalArray(v.iter().map(|x| Rational::new(x.0, x.1)).collect())
            }
            Val::IRat(v) if v.len() == 1 => EntryValue::IRational(Rational::new(v[0].0, v[0].1)),
            Val::IRat(v) => {
                EntryValue::IRationalArray(v.iter().map(|x| Rational::new(x.0, x.1)).collect())
            }
            Val::Undef(v) => EntryValue::Undefined(v.clone()),
            Val::I8(v) if v.len() == 1 => EntryValue::I8(v[0]),
            Val::I16(v) if v.len() == 1 => EntryValue::I16(v[0]),
            Val::I32(v) if v.len() == 1 => EntryValue::I32(v[0]),
            Val::F32(v) if v.len() == 1 => EntryValue::F32(v[0]),
            Val::F64(v) if v.len() == 1 => EntryValue::F64(v[0]),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub enum Ek {
    V(Val),
    Sub(Dir),
    /// verbatim format, count and value field
    Raw(u16, u32, u32),
    /// a second pointer to the directory with this number (order of creation, IFD0 = 0)
    SubRef(usize),
}
#[derive(Clone, Debug)]
pub struct En {
    pub tag: u16,
    pub k: Ek,
}
pub fn en(tag: u16, v: Val) -> En {
    En { tag, k: Ek::V(v) }
}
pub fn sub(tag: u16, d: Dir) -> En {
    En {
        tag,
        k: Ek::Sub(d),
    }
}
pub fn raw(tag: u16, fmt: u16, count: u32, val: u32) -> En {
    En {
        tag,
        k: Ek::Raw(fmt, count, val),
    }
}
#[derive(Clone, Debug, Default)]
pub struct Dir {
    pub ents: Vec<En>,
    pub next: Option<Box<Dir>>,
    /// verbatim next-directory pointer when `next` is None
    pub next_raw: u32,
}
pub fn dir(ents: Vec<En>) -> Dir {
    Dir {
        ents,
        next: None,
        next_raw: 0,
    }
}
impl Dir {
    pub fn with_next(mut self, n: Dir) -> Dir {
        self.next = Some(Box::new(n));
        self
    }
}

pub const EXIF_PTR: u16 = 0x8769;
pub const GPS_PTR: u16 = 0x8825;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Order {
    /// each directory followed by its values, sub-directories after it
    Natural,
    /// everything of Natural, back to front (IFD0 near the end)
    Reversed,
    ValsThenDirs,
    DirsThenVals,
    /// directories in reverse, then values
    RevDirsThenVals,
    RevValsThenRevDirs,
    /// k-th permutation of all blocks
    Perm(u64),
    /// the blocks of Natural in this order
    Listed(Vec<usize>),
}
pub const ORDERS: [Order; 6] = [
    Order::Natural,
    Order::Reversed,
    Order::ValsThenDirs,
    Order::DirsThenVals,
    Order::RevDirsThenVals,
    Order::RevValsThenRevDirs,
];

#[derive(Clone, Debug)]
pub struct Lay {
    pub be: bool,
    pub order: Order,
    /// filler bytes before the first block
    pub lead: usize,
    /// filler bytes between blocks
    pub gap: usize,
    /// filler bytes at the end
    pub tail: usize,
    /// blocks start at even offsets
    pub align: bool,
    /// filler bytes in front of each of the last so many blocks
    pub far: (usize, usize),
}
impl Lay {
    pub fn new(be: bool) -> Lay {
        Lay {
            be,
            order: Order::Natural,
            lead: 0,
            gap: 0,
            tail: 0,
            align: true,
            far: (0, 0),
        }
    }
    pub fn order(mut self, o: Order) -> Lay {
        self.order = o;
        self
    }
}

pub struct Tiff {
    pub bytes: Vec<u8>,
    /// offset of each directory, in creation order (IFD0 = 0)
    pub dir_off: Vec<u32>,
    /// what iteration must yield
    pub expect: Vec<Ent>,
    pub blocks: usize,
}

enum Blk {
    D(usize),
    V(usize, usize),
}

struct Flat<'a> {
    d: &'a Dir,
    subs: Vec<Option<usize>>,
    next: Option<usize>,
}

fn flatten<'a>(d: &'a Dir, out: &mut Vec<Flat<'a>>) -> usize {
    let me = out.len();
    out.push(Flat {
        d,
        subs: vec![None; d.ents.len()],
        next: None,
    });
    for (i, e) in d.ents.iter().enumerate() {
        if let Ek::Sub(s) = &e.k {
            let c = flatten(s, out);
            out[me].subs[i] = Some(c);
        }
    }
    if let Some(n) = &d.next {
        let c = flatten(n, out);
        out[me].next = Some(c);
    }
    me
}

/// Which blocks of Natural are directories.
pub fn dir_blocks(d: &Dir) -> Vec<bool> {
    let mut fl = vec![];
    flatten(d, &mut fl);
    let mut v = vec![];
    for f in &fl {
        v.push(true);
        v.extend(f.d.ents.iter().filter(|e| matches!(&e.k, Ek::V(v) if v.bytes(true).len() > 4)).map(|_| false));
    }
    v
}
/// Number of blocks (directories and out-of-line values) of a tree.
pub fn n_blocks(d: &Dir) -> usize {
    let mut fl = vec![];
    flatten(d, &mut fl);
    fl.iter()
        .map(|f| {
            1 + f
                .d
                .ents
                .iter()
                .filter(|e| matches!(&e.k, Ek::V(v) if v.bytes(true).len() > 4))
                .count()
        })
        .sum()
}

pub fn tiff(root: &Dir, lay: &Lay) -> Tiff {
    let be = lay.be;
    let mut fl = vec![];
    flatten(root, &mut fl);
    let mut nat: Vec<Blk> = vec![];
    let mut ds: Vec<Blk> = vec![];
    let mut vs: Vec<Blk> = vec![];
    for (i, f) in fl.iter().enumerate() {
        nat.push(Blk::D(i));
        ds.push(Blk::D(i));
        for (j, e) in f.d.ents.iter().enumerate() {
            if let Ek::V(v) = &e.k {
                if v.bytes(be).len() > 4 {
                    nat.push(Blk::V(i, j));
                    vs.push(Blk::V(i, j));
                }
            }
        }
    }
    let nb = nat.len();
    let blocks: Vec<Blk> = match &lay.order {
        Order::Natural => nat,
        Order::Reversed => {
            nat.reverse();
            nat
        }
        Order::ValsThenDirs => vs.into_iter().chain(ds).collect(),
        Order::DirsThenVals => ds.into_iter().chain(vs).collect(),
        Order::RevDirsThenVals => ds.into_iter().rev().chain(vs).collect(),
        Order::RevValsThenRevDirs => vs.into_iter().rev().chain(ds.into_iter().rev()).collect(),
        Order::Perm(k) => {
            let p = crate::engine::perm(nb, *k);
            let mut o: Vec<Option<Blk>> = nat.into_iter().map(Some).collect();
            p.into_iter().map(|i| o[i].take().unwrap()).collect()
        }
        Order::Listed(l) => {
            let mut o: Vec<Option<Blk>> = nat.into_iter().map(Some).collect();
            assert_eq!(l.len(), nb);
            l.iter().map(|&i| o[i].take().unwrap()).collect()
        }
    };
    // offsets
    let mut doff = vec![0u32; fl.len()];
    let mut voff: std::collections::HashMap<(usize, usize), u32> = Default::default();
    let mut pos = 8 + lay.lead;
    for (k, b) in blocks.iter().enumerate() {
        if k + lay.far.0 >= nb {
            pos += lay.far.1;
        }
        pos += pos & lay.align as usize;
        match b {
            Blk::D(i) => {
                doff[*i] = pos as u32;
                pos += 2 + 12 * fl[*i].d.ents.len() + 4;
            }
            Blk::V(i, j) => {
                voff.insert((*i, *j), pos as u32);
                if let Ek::V(v) = &fl[*i].d.ents[*j].k {
                    pos += v.bytes(be).len();
                }
            }
        }
        pos += lay.gap;
    }
    let total = pos + lay.tail;
    // filler bytes form no valid marker of any container
    let mut out = vec![0xA5u8; total];
    let p16 = |o: &mut [u8], at: usize, x: u16| {
        o[at..at + 2].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() })
    };
    let p32 = |o: &mut [u8], at: usize, x: u32| {
        o[at..at + 4].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() })
    };
    out[..2].copy_from_slice(if be { b"MM" } else { b"II" });
    p16(&mut out, 2, 0x2a);
    p32(&mut out, 4, doff[0]);
    for (i, f) in fl.iter().enumerate() {
        let mut at = doff[i] as usize;
        p16(&mut out, at, f.d.ents.len() as u16);
        at += 2;
        for (j, e) in f.d.ents.iter().enumerate() {
            p16(&mut out, at, e.tag);
            match &e.k {
                Ek::V(v) => {
                    p16(&mut out, at + 2, v.fmt());
                    p32(&mut out, at + 4, v.count() as u32);
                    let b = v.bytes(be);
                    if b.len() > 4 {
                        let o = voff[&(i, j)];
                        p32(&mut out, at + 8, o);
                        out[o as usize..o as usize + b.len()].copy_from_slice(&b);
                    } else {
                        out[at + 8..at + 12].fill(0);
                        out[at + 8..at + 8 + b.len()].copy_from_slice(&b);
                    }
                }
                Ek::Sub(_) => {
                    p16(&mut out, at + 2, 4);
                    p32(&mut out, at + 4, 1);
                    p32(&mut out, at + 8, doff[f.subs[j].unwrap()]);
                }
                Ek::SubRef(n) => {
                    p16(&mut out, at + 2, 4);
                    p32(&mut out, at + 4, 1);
                    p32(&mut out, at + 8, doff[*n]);
                }
                Ek::Raw(fm, c, v) => {
                    p16(&mut out, at + 2, *fm);
                    p32(&mut out, at + 4, *c);
                    p32(&mut out, at + 8, *v);
                }
            }
            at += 12;
        }
        let nx = match f.next {
            Some(n) => doff[n],
            None => f.d.next_raw,
        };
        p32(&mut out, at, nx);
    }
    // expectation
    let mut exp = vec![];
    let mut seen = std::collections::HashSet::new();
    fn walk(
        fl: &[Flat],
        i: usize,
        idx: usize,
        doff: &[u32],
        seen: &mut std::collections::HashSet<(usize, u16)>,
        exp: &mut Vec<Ent>,
    ) {
        for (j, e) in fl[i].d.ents.iter().enumerate() {
            match &e.k {
                Ek::V(v) => {
                    if seen.insert((idx, e.tag)) {
                        exp.push(Ent {
                            ifd: idx,
                            code: e.tag,
                            val: match v.expect() {
                                Some(x) => Ok(format!("{x:?}")),
                                None => Err(String::new()),
                            },
                        })
                    }
                }
                Ek::Sub(_) => {
                    let c = fl[i].subs[j].unwrap();
                    if seen.insert((idx, e.tag)) {
                        exp.push(Ent {
                            ifd: idx,
                            code: e.tag,
                            val: Ok(format!("{:?}", EntryValue::U32(doff[c]))),
                        });
                    }
                    walk(fl, c, idx, doff, seen, exp);
                }
                Ek::SubRef(_) | Ek::Raw(..) => {
                    if seen.insert((idx, e.tag)) {
                        exp.push(Ent {
                            ifd: idx,
                            code: e.tag,
                            val: Err(String::new()),
                        })
                    }
                }
            }
        }
        if let Some(n) = fl[i].next {
            walk(fl, n, idx + 1, doff, seen, exp);
        }
    }
    walk(&fl, 0, 0, &doff, &mut seen, &mut exp);
    Tiff {
        bytes: out,
        dir_off: doff,
        expect: exp,
        blocks: nb,
    }
}

/// A small but complete EXIF tree: main, Exif, GPS and thumbnail directories.
pub fn sample_dir() -> Dir {
    dir(vec![
        en(0x010f, Val::s("ACME Corp")),
        en(0x0110, Val::s("M1")),
        en(0x0112, Val::U16(vec![6])),
        en(0x011a, Val::URat(vec![(72, 1)])),
        en(0x0132, Val::s("2023:07:09 20:36:33")),
        sub(
            EXIF_PTR,
            dir(vec![
                en(0x829a, Val::URat(vec![(1, 250)])),
                en(0x9003, Val::s("2023:07:09 20:36:33")),
                en(0x9011, Val::s("+08:00")),
                en(0x9204, Val::IRat(vec![(-1, 3)])),
                en(0xa002, Val::U32(vec![4032])),
            ]),
        ),
        sub(GPS_PTR, sample_gps()),
    ])
    .with_next(dir(vec![
        en(0x0103, Val::U16(vec![6])),
        en(0x011a, Val::URat(vec![(96, 1)])),
        en(0x0201, Val::U32(vec![1234])),
    ]))
}
pub fn sample_gps() -> Dir {
    dir(vec![
        en(0x0000, Val::U8(vec![2, 3, 0, 0])),
        en(0x0001, Val::s("S")),
        en(0x0002, Val::URat(vec![(43, 1), (28, 1), (176, 100)])),
        en(0x0003, Val::s("E")),
        en(0x0004, Val::URat(vec![(11, 1), (53, 1), (45, 1)])),
        en(0x0005, Val::U8(vec![1])),
        en(0x0006, Val::URat(vec![(1234, 10)])),
    ])
}
/// The smallest useful tree.
pub fn tiny_dir() -> Dir {
    dir(vec![
        en(0x0110, Val::s("M1")),
        en(0x0112, Val::U16(vec![1])),
    ])
}

/// Expected entries of `sample_dir`-like trees once date-time typing is applied.
/// (`expect` above renders date-time tags as text; callers use their own oracle for those.)
pub fn strip_dates(v: &[Ent]) -> Vec<Ent> {
    v.iter()
        .filter(|e| !matches!(e.code, 0x0132 | 0x9003 | 0x9004))
        .cloned()
        .collect()
}

// ------------------------------------------------------------------ JPEG

pub fn exif_payload(tiff: &[u8]) -> Vec<u8> {
    let mut v = b"Exif\0\0".to_vec();
    v.extend_from_slice(tiff);
    v
}
pub fn jseg(marker: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, marker];
    v.extend_from_slice(&((payload.len() + 2) as u16).to_be_bytes());
    v.extend_from_slice(payload);
    v
}
/// SOI, the given header segments, SOS, entropy-coded data, EOI.
pub fn jpeg(segs: &[Vec<u8>], scan: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8];
    for s in segs {
        v.extend_from_slice(s);
    }
    v.extend_from_slice(&jseg(0xda, &[1, 1, 0, 0, 63, 0]));
    v.extend_from_slice(scan);
    v.extend_from_slice(&[0xff, 0xd9]);
    v
}
pub fn jfif() -> Vec<u8> {
    jseg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0")
}
pub fn jpeg_with_exif(tiff: &[u8]) -> Vec<u8> {
    jpeg(&[jseg(0xe1, &exif_payload(tiff))], &[0x12; 200])
}

// ------------------------------------------------------------------ PNG

fn crc32(data: &[&[u8]]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for d in data {
        for b in *d {
            c ^= *b as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 {
                    0xedb8_8320 ^ (c >> 1)
                } else {
                    c >> 1
                };
            }
        }
    }
    !c
}
pub fn chunk(t: &[u8; 4], d: &[u8]) -> Vec<u8> {
    let mut v = (d.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(t);
    v.extend_from_slice(d);
    // large payloads: the CRC is not worth computing, nobody checks it there
    let c = if d.len() > 4096 { 0 } else { crc32(&[t, d]) };
    v.extend_from_slice(&c.to_be_bytes());
    v
}
pub const PNG_SIG: &[u8] = b"\x89PNG\r\n\x1a\n";
pub fn ihdr() -> Vec<u8> {
    chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0])
}
pub fn png(chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = PNG_SIG.to_vec();
    v.extend_from_slice(&ihdr());
    for c in chunks {
        v.extend_from_slice(c);
    }
    v.extend_from_slice(&chunk(b"IEND", &[]));
    v
}
pub fn text_chunk(k: &str, v: &[u8]) -> Vec<u8> {
    let mut d = k.as_bytes().to_vec();
    d.push(0);
    d.extend_from_slice(v);
    chunk(b"tEXt", &d)
}
/// ImageMagick-style raw profile text.
pub fn raw_profile(name: &str, data: &[u8]) -> Vec<u8> {
    let mut s = format!("\n{name}\n{:8}\n", data.len());
    for (i, b) in data.iter().enumerate() {
        if i > 0 && i % 36 == 0 {
            s.push('\n');
        }
        s.push_str(&format!("{b:02x}"));
    }
    s.push('\n');
    s.into_bytes()
}

// ------------------------------------------------------------------ ISO BMFF

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sz {
    S32,
    S64,
    ToEnd,
}
pub fn bx(t: &[u8; 4], body: &[u8]) -> Vec<u8> {
    bxs(t, body, Sz::S32)
}
pub fn bxs(t: &[u8; 4], body: &[u8], s: Sz) -> Vec<u8> {
    let mut v = vec![];
    match s {
        Sz::S32 => v.extend_from_slice(&((body.len() + 8) as u32).to_be_bytes()),
        Sz::S64 => v.extend_from_slice(&1u32.to_be_bytes()),
        Sz::ToEnd => v.extend_from_slice(&0u32.to_be_bytes()),
    }
    v.extend_from_slice(t);
    if s == Sz::S64 {
        v.extend_from_slice(&((body.len() + 16) as u64).to_be_bytes());
    }
    v.extend_from_slice(body);
    v
}
pub fn fbx(t: &[u8; 4], ver: u8, flags: u32, body: &[u8]) -> Vec<u8> {
    let mut b = vec![ver];
    b.extend_from_slice(&flags.to_be_bytes()[1..]);
    b.extend_from_slice(body);
    bx(t, &b)
}
pub fn ftyp(major: &[u8; 4], compat: &[&[u8; 4]]) -> Vec<u8> {
    let mut b = major.to_vec();
    b.extend_from_slice(&[0, 0, 0, 0]);
    for c in compat {
        b.extend_from_slice(*c);
    }
    bx(b"ftyp", &b)
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

// ------------------------------------------------------------------ EBML

/// element id bytes are given literally (big-endian, without leading zeros)
pub fn eid(id: u64) -> Vec<u8> {
    let b = id.to_be_bytes();
    let k = b.iter().position(|x| *x != 0).unwrap_or(7);
    b[k..].to_vec()
}
/// data size as a vint of `w` bytes (1..=8)
pub fn vint(n: u64, w: usize) -> Vec<u8> {
    let v = n | (1u64 << (7 * w));
    v.to_be_bytes()[8 - w..].to_vec()
}
pub fn min_w(n: u64) -> usize {
    (1..=8)
        .find(|w| n < (1u64 << (7 * w)) - 1)
        .unwrap_or(8)
}
pub fn el(id: u64, body: &[u8]) -> Vec<u8> {
    elw(id, body, min_w(body.len() as u64))
}
pub fn elw(id: u64, body: &[u8], w: usize) -> Vec<u8> {
    let mut v = eid(id);
    v.extend_from_slice(&vint(body.len() as u64, w));
    v.extend_from_slice(body);
    v
}
pub fn uint_be(n: u64, w: usize) -> Vec<u8> {
    n.to_be_bytes()[8 - w..].to_vec()
}
