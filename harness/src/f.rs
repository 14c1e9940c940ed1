//! Container builders: HEIF family, CR3, RAF, MP4/MOV, Matroska, Motion Photo.
use crate::b::*;

pub fn filler(n: usize) -> Vec<u8> {
    // no byte pair of it looks like a marker, box type or signature
    (0..n).map(|i| 0x40 + (i % 23) as u8).collect()
}
pub fn free(n: usize) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    assert!(n >= 8);
    bx(b"free", &filler(n - 8))
}

// ------------------------------------------------------------------ HEIF

#[derive(Clone, Debug)]
pub struct Heif {
    pub brand: [u8; 4],
    pub compat: Vec<[u8; 4]>,
    pub iinf_ver: u8,
    pub infe_ver: u8,
    pub iloc_ver: u8,
    pub osz: u8,
    pub lsz: u8,
    pub bsz: u8,
    pub isz: u8,
    /// use the base offset for the position (and extent offset 0 or a part)
    pub base: bool,
    pub method: u16,
    /// items before and after the Exif item
    pub before: usize,
    pub after: usize,
    pub exif_id: u32,
    /// "Exif\0\0" between the offset field and the TIFF header
    pub ident: bool,
    /// filler box between ftyp and meta / meta and mdat
    pub pad1: usize,
    pub pad2: usize,
    /// payload before and after the item in mdat
    pub lead: usize,
    /// payload in front of the item instead of filler; the other items point to it
    pub lead_data: Option<Vec<u8>>,
    pub tail: usize,
    pub mdat_first: bool,
    pub mdat64: bool,
    pub with_exif: bool,
    /// order of iinf and iloc in meta
    pub iloc_first: bool,
    /// items listed in front of all others: id, infe box, and its location if it has one
    /// (construction method, data reference, extents)
    pub others: Vec<(u32, Vec<u8>, Option<(u16, u16, usize)>)>,
    /// boxes of meta in front of, between and behind the tables
    pub boxes: [Vec<u8>; 3],
    /// flags, protection index and name of the Exif item
    pub flags: u32,
    pub prot: u16,
    pub name: Option<String>,
}
impl Heif {
    pub fn new() -> Heif {
        Heif {
            brand: *b"heic",
            compat: vec![*b"mif1", *b"heic"],
            iinf_ver: 0,
            infe_ver: 2,
            iloc_ver: 1,
            osz: 4,
            lsz: 4,
            bsz: 0,
            isz: 0,
            base: false,
            method: 0,
            before: 1,
            after: 0,
            exif_id: 49,
            ident: true,
            pad1: 0,
            pad2: 0,
            lead: 16,
            lead_data: None,
            tail: 16,
            mdat_first: false,
            mdat64: false,
            with_exif: true,
            iloc_first: false,
            others: vec![],
            boxes: Default::default(),
            flags: 0,
            prot: 0,
            name: None,
        }
    }
    pub fn item(&self, tiff: &[u8]) -> Vec<u8> {
        let mut v = vec![];
        if self.ident {
            v.extend_from_slice(&6u32.to_be_bytes());
            v.extend_from_slice(b"Exif\0\0");
        } else {
            v.extend_from_slice(&0u32.to_be_bytes());
        }
        v.extend_from_slice(tiff);
        v
    }
    fn infe(&self, id: u32, ty: &[u8; 4], name: &str) -> Vec<u8> {
        let exif = id == self.exif_id;
        let mut b = vec![];
        if self.infe_ver > 2 {
            b.extend_from_slice(&id.to_be_bytes());
        } else {
            b.extend_from_slice(&(id as u16).to_be_bytes());
        }
        b.extend_from_slice(&if exif { self.prot } else { 0 }.to_be_bytes());
        b.extend_from_slice(ty);
        b.extend_from_slice(self.name.as_deref().filter(|_| exif).unwrap_or(name).as_bytes());
        b.push(0);
        fbx(b"infe", self.infe_ver, if exif { self.flags } else { 0 }, &b)
    }
    fn meta(&self, exif_at: u64, exif_len: u64, other_at: u64, other_len: u64) -> Vec<u8> {
        let mut items: Vec<(u32, [u8; 4], u64, u64)> = vec![];
        for i in 0..self.before {
            items.push((1 + i as u32, *b"hvc1", other_at, other_len));
        }
        if self.with_exif {
            items.push((self.exif_id, *b"Exif", exif_at, exif_len));
        }
        for i in 0..self.after {
            items.push((100 + i as u32, *b"hvc1", other_at, other_len));
        }
        let mut iinf = vec![];
        let listed = items.len() + self.others.len();
        if self.iinf_ver > 0 {
            iinf.extend_from_slice(&(listed as u32).to_be_bytes());
        } else {
            iinf.extend_from_slice(&(listed as u16).to_be_bytes());
        }
        for o in &self.others {
            iinf.extend_from_slice(&o.1);
        }
        for (k, it) in items.iter().enumerate() {
            iinf.extend_from_slice(&self.infe(it.0, &it.1, if k % 2 == 0 { "" } else { "nm" }));
        }
        let iinf = fbx(b"iinf", self.iinf_ver, 0, &iinf);
        let mut il = vec![(self.osz << 4) | self.lsz, (self.bsz << 4) | self.isz];
        let located = items.len() + self.others.iter().filter(|o| o.2.is_some()).count();
        if self.iloc_ver < 2 {
            il.extend_from_slice(&(located as u16).to_be_bytes());
        } else {
            il.extend_from_slice(&(located as u32).to_be_bytes());
        }
        let put = |v: &mut Vec<u8>, w: u8, n: u64| v.extend_from_slice(&n.to_be_bytes()[8 - w as usize..]);
        for (id, _, l) in &self.others {
            let Some((method, dref, extents)) = l else { continue };
            if self.iloc_ver < 2 {
                il.extend_from_slice(&(*id as u16).to_be_bytes());
            } else {
                il.extend_from_slice(&id.to_be_bytes());
            }
            if self.iloc_ver >= 1 {
                il.extend_from_slice(&method.to_be_bytes());
            }
            il.extend_from_slice(&dref.to_be_bytes());
            put(&mut il, self.bsz, 0);
            il.extend_from_slice(&(*extents as u16).to_be_bytes());
            for k in 0..*extents {
                if self.iloc_ver >= 1 {
                    put(&mut il, self.isz, k as u64 + 1);
                }
                put(&mut il, self.osz, other_at + k as u64);
                put(&mut il, self.lsz, other_len);
            }
        }
        for it in &items {
            if self.iloc_ver < 2 {
                il.extend_from_slice(&(it.0 as u16).to_be_bytes());
            } else {
                il.extend_from_slice(&it.0.to_be_bytes());
            }
            if self.iloc_ver >= 1 {
                let m = if &it.1 == b"Exif" { self.method } else { 0 };
                il.extend_from_slice(&m.to_be_bytes());
            }
            il.extend_from_slice(&[0, 0]);
            let base = if self.base && self.bsz > 0 {
                if self.osz == 0 {
                    it.2
                } else {
                    it.2 / 2
                }
            } else {
                0
            };
            put(&mut il, self.bsz, base);
            il.extend_from_slice(&1u16.to_be_bytes());
            // there is an extent index only from version 1 on
            if self.iloc_ver >= 1 {
                put(&mut il, self.isz, 0);
            }
            put(&mut il, self.osz, it.2 - base);
            put(&mut il, self.lsz, it.3);
        }
        let iloc = fbx(b"iloc", self.iloc_ver, 0, &il);
        let hdlr = fbx(
            b"hdlr",
            0,
            0,
            b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0",
        );
        let pitm = fbx(b"pitm", 0, 0, &[0, 1]);
        let [b0, b1, b2] = self.boxes.clone();
        let mut body = vec![hdlr, pitm, b0];
        if self.iloc_first {
            body.extend([iloc, b1, iinf]);
        } else {
            body.extend([iinf, b1, iloc]);
        }
        body.push(b2);
        if self.method == 1 {
            body.push(bx(b"idat", &filler(64)));
        }
        fbx(b"meta", 0, 0, &body.concat())
    }
    /// A file in which `lead` and `tail` bytes lie around the item: what is in front of them,
    /// and the item. Needs 8-byte offsets.
    pub fn far(&self, tiff: &[u8], lead: u64, tail: u64) -> (Vec<u8>, Vec<u8>) {
        let (mut a, b, c) = self.farther(tiff, 0, lead, tail);
        a.extend_from_slice(&b);
        (a, c)
    }
    /// The same with `ahead` bytes between the file type box and the rest.
    pub fn farther(&self, tiff: &[u8], ahead: u64, lead: u64, tail: u64) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        assert!(self.osz == 8 && !self.mdat_first);
        let item = self.item(tiff);
        let mut compat: Vec<&[u8; 4]> = vec![];
        for c in &self.compat {
            compat.push(c);
        }
        let ft = ftyp(&self.brand, &compat);
        let at = ahead + (ft.len() + self.meta(0, 0, 0, 0).len() + 16) as u64;
        let mut h = self.meta(at + lead, item.len() as u64, at, 1);
        h.extend_from_slice(&1u32.to_be_bytes());
        h.extend_from_slice(b"mdat");
        h.extend_from_slice(&(16 + lead + item.len() as u64 + tail).to_be_bytes());
        (ft, h, item)
    }
    pub fn build(&self, tiff: &[u8]) -> Vec<u8> {
        self.build_item(&self.item(tiff))
    }
    pub fn build_item(&self, item: &[u8]) -> Vec<u8> {
        let mut compat: Vec<&[u8; 4]> = vec![];
        for c in &self.compat {
            compat.push(c);
        }
        let ft = ftyp(&self.brand, &compat);
        let mut payload = self.lead_data.clone().unwrap_or_else(|| filler(self.lead));
        let lead = payload.len();
        if self.with_exif {
            payload.extend_from_slice(item);
        }
        payload.extend_from_slice(&filler(self.tail));
        let mdat = bxs(b"mdat", &payload, if self.mdat64 { Sz::S64 } else { Sz::S32 });
        let mhdr = if self.mdat64 { 16 } else { 8 };
        let meta0 = self.meta(0, 0, 0, 0);
        let mdat_at = if self.mdat_first {
            ft.len() + self.pad1
        } else {
            ft.len() + self.pad1 + meta0.len() + self.pad2
        };
        let body_at = (mdat_at + mhdr) as u64;
        let meta = self.meta(
            body_at + lead as u64,
            item.len() as u64,
            body_at,
            lead as u64,
        );
        assert_eq!(meta.len(), meta0.len());
        if self.mdat_first {
            cat(&[ft, free(self.pad1), mdat, free(self.pad2), meta])
        } else {
            cat(&[ft, free(self.pad1), meta, free(self.pad2), mdat])
        }
    }
}

// ------------------------------------------------------------------ CR3

pub const CANON: [u8; 16] = [
    0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48,
];
#[derive(Clone, Debug)]
pub struct Cr3 {
    /// (box type, body) in file order
    pub cmts: Vec<([u8; 4], Vec<u8>)>,
    pub pad1: usize,
    /// filler box inside the Canon box before the CMT blocks
    pub inner: usize,
    /// a foreign uuid box first
    pub foreign: bool,
    pub trak: usize,
    pub canon: bool,
    /// boxes of the movie box in front of the Canon box
    pub ahead: Vec<u8>,
    /// which boxes have a 64-bit size: movie box, Canon box, compressor version, metadata blocks
    pub wide: u8,
}
impl Cr3 {
    pub fn new(cmts: Vec<([u8; 4], Vec<u8>)>) -> Cr3 {
        Cr3 {
            cmts,
            pad1: 0,
            inner: 0,
            foreign: false,
            trak: 64,
            canon: true,
            ahead: vec![],
            wide: 0,
        }
    }
    pub fn build(&self) -> Vec<u8> {
        let w = |bit: usize| if bit < 8 && self.wide >> bit & 1 == 1 { Sz::S64 } else { Sz::S32 };
        let mut u = CANON.to_vec();
        u.extend_from_slice(&bxs(b"CNCV", b"CanonCR3_001/00.09.00/00.00.00", w(2)));
        u.extend_from_slice(&free(self.inner));
        for (k, (t, d)) in self.cmts.iter().enumerate() {
            u.extend_from_slice(&bxs(t, d, w(3 + k)));
        }
        let mut moov = vec![];
        if self.foreign {
            let mut f = vec![0x11; 16];
            f.extend_from_slice(&bx(b"CMT1", b"MM\0\x2a\0\0\0\x08\0\0\0\0\0\0"));
            moov.extend_from_slice(&bx(b"uuid", &f));
        }
        moov.extend_from_slice(&self.ahead);
        if self.canon {
            moov.extend_from_slice(&bxs(b"uuid", &u, w(1)));
        }
        moov.extend_from_slice(&bx(b"trak", &filler(self.trak)));
        cat(&[
            ftyp(b"crx ", &[b"crx ", b"isom"]),
            free(self.pad1),
            bxs(b"moov", &moov, w(0)),
            bx(b"mdat", &filler(100)),
        ])
    }
}

// ------------------------------------------------------------------ RAF

pub fn raf(jpeg: &[u8], gap: usize, cam: &[u8]) -> Vec<u8> {
    let mut v = b"FUJIFILMCCD-RAW ".to_vec();
    v.extend_from_slice(b"0201");
    v.extend_from_slice(b"FF383501");
    let mut c = cam.to_vec();
    c.resize(32, 0);
    v.extend_from_slice(&c);
    v.extend_from_slice(b"0120");
    v.extend_from_slice(&[0; 20]);
    let at = 16 + 4 + 8 + 32 + 4 + 20 + 4 + 4 * 5 + gap;
    v.extend_from_slice(&(at as u32).to_be_bytes());
    v.extend_from_slice(&(jpeg.len() as u32).to_be_bytes());
    v.extend_from_slice(&[0; 16]);
    v.extend_from_slice(&filler(gap));
    assert_eq!(v.len(), at);
    v.extend_from_slice(jpeg);
    v.extend_from_slice(&filler(300));
    v
}

// ------------------------------------------------------------------ MP4 / MOV

pub fn mvhd(ver: u8, created: u64, ts: u32, dur: u64) -> Vec<u8> {
    let mut b = vec![];
    if ver == 1 {
        b.extend_from_slice(&created.to_be_bytes());
        b.extend_from_slice(&(created + 1).to_be_bytes());
        b.extend_from_slice(&ts.to_be_bytes());
        b.extend_from_slice(&dur.to_be_bytes());
    } else {
        b.extend_from_slice(&(created as u32).to_be_bytes());
        b.extend_from_slice(&((created + 1) as u32).to_be_bytes());
        b.extend_from_slice(&ts.to_be_bytes());
        b.extend_from_slice(&(dur as u32).to_be_bytes());
    }
    b.extend_from_slice(&0x10000u32.to_be_bytes());
    b.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    b.extend_from_slice(&[7; 36]);
    b.extend_from_slice(&[0; 24]);
    b.extend_from_slice(&3u32.to_be_bytes());
    fbx(b"mvhd", ver, 0, &b)
}
pub fn tkhd(ver: u8, w: u16, h: u16) -> Vec<u8> {
    let mut b = vec![];
    if ver == 1 {
        b.extend_from_slice(&3_790_000_000u64.to_be_bytes());
        b.extend_from_slice(&3_790_000_000u64.to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&[0; 4]);
        b.extend_from_slice(&777u64.to_be_bytes());
    } else {
        b.extend_from_slice(&3_790_000_000u32.to_be_bytes());
        b.extend_from_slice(&3_790_000_000u32.to_be_bytes());
        b.extend_from_slice(&1u32.to_be_bytes());
        b.extend_from_slice(&[0; 4]);
        b.extend_from_slice(&777u32.to_be_bytes());
    }
    b.extend_from_slice(&[0; 8]);
    b.extend_from_slice(&[0; 8]);
    b.extend_from_slice(&[9; 36]);
    b.extend_from_slice(&w.to_be_bytes());
    b.extend_from_slice(&[0, 0]);
    b.extend_from_slice(&h.to_be_bytes());
    b.extend_from_slice(&[0, 0]);
    fbx(b"tkhd", ver, 7, &b)
}
pub fn hdlr(kind: &[u8; 4]) -> Vec<u8> {
    let mut b = b"mhlr".to_vec();
    b.extend_from_slice(kind);
    b.extend_from_slice(&[0; 12]);
    b.push(0);
    fbx(b"hdlr", 0, 0, &b)
}
pub fn trak(kind: &[u8; 4], tk: Vec<u8>, pad: usize) -> Vec<u8> {
    let mdia = bx(b"mdia", &cat(&[fbx(b"mdhd", 0, 0, &[0; 20]), hdlr(kind), free(pad)]));
    bx(b"trak", &cat(&[tk, bx(b"edts", &[0; 8]), mdia]))
}
/// (key, type code, value), item indices 1-based in `order`
pub fn qt_meta(items: &[(&str, u32, Vec<u8>)], order: &[usize]) -> Vec<u8> {
    let mut k = (items.len() as u32).to_be_bytes().to_vec();
    for (n, _, _) in items {
        k.extend_from_slice(&((n.len() + 8) as u32).to_be_bytes());
        k.extend_from_slice(b"mdta");
        k.extend_from_slice(n.as_bytes());
    }
    let keys = fbx(b"keys", 0, 0, &k);
    let mut il = vec![];
    for &o in order {
        il.extend_from_slice(&ilst_item(o as u32 + 1, items[o].1, &items[o].2));
    }
    bx(b"meta", &cat(&[hdlr(b"mdta"), keys, bx(b"ilst", &il)]))
}
pub fn ilst_item(index: u32, ty: u32, v: &[u8]) -> Vec<u8> {
    let mut d = ty.to_be_bytes().to_vec();
    d.extend_from_slice(&[0; 4]);
    d.extend_from_slice(v);
    let data = bx(b"data", &d);
    let mut o = ((data.len() + 8) as u32).to_be_bytes().to_vec();
    o.extend_from_slice(&index.to_be_bytes());
    o.extend_from_slice(&data);
    o
}
pub fn udta(boxes: &[Vec<u8>], term: bool) -> Vec<u8> {
    let mut b = boxes.concat();
    if term {
        b.extend_from_slice(&[0; 4]);
    }
    bx(b"udta", &b)
}
pub fn xyz(s: &str) -> Vec<u8> {
    let mut b = (s.len() as u16).to_be_bytes().to_vec();
    b.extend_from_slice(&[0x15, 0xc7]);
    b.extend_from_slice(s.as_bytes());
    bx(&[0xa9, b'x', b'y', b'z'], &b)
}
/// 3GPP `auth`: version and flags, packed language code, text, NUL
pub fn auth(s: &str, lang: &str) -> Vec<u8> {
    let mut b = vec![0; 4];
    let code = lang.bytes().fold(0u16, |c, l| c << 5 | (l - 0x60) as u16);
    b.extend_from_slice(&code.to_be_bytes());
    b.extend_from_slice(s.as_bytes());
    b.push(0);
    bx(b"auth", &b)
}
/// A plain movie with everything in it.
pub fn moov_full() -> Vec<u8> {
    bx(
        b"moov",
        &cat(&[
            mvhd(0, 3_790_000_000, 600, 12_345),
            trak(b"soun", tkhd(0, 0, 0), 0),
            trak(b"vide", tkhd(0, 1280, 720), 0),
            qt_meta(
                &[
                    ("com.apple.quicktime.make", 1, b"Apple".to_vec()),
                    ("com.apple.quicktime.model", 1, b"iPhone X".to_vec()),
                    ("com.apple.quicktime.location.ISO6709", 1, b"+27.1281+100.2508+000.000/".to_vec()),
                    ("com.apple.quicktime.creationdate", 1, b"2019-02-12T15:27:12+08:00".to_vec()),
                ],
                &[0, 1, 2, 3],
            ),
            udta(&[auth("ReadMe", "und")], false),
        ]),
    )
}
pub fn mp4(moov: &[u8], before: usize, after: usize, wide: bool) -> Vec<u8> {
    let mut v = vec![if wide {
        ftyp(b"qt  ", &[b"qt  "])
    } else {
        ftyp(b"mp42", &[b"mp42", b"isom"])
    }];
    if wide {
        v.push(bx(b"wide", &[]));
    }
    if before > 0 {
        v.push(bx(b"mdat", &filler(before)));
    }
    v.push(moov.to_vec());
    if after > 0 {
        v.push(bx(b"mdat", &filler(after)));
    }
    v.concat()
}

// ------------------------------------------------------------------ Matroska

pub fn ebml_head(doc: &str) -> Vec<u8> {
    el(
        0x1A45DFA3,
        &cat(&[
            el(0x4286, &[1]),
            el(0x42F7, &[1]),
            el(0x42F2, &[4]),
            el(0x42F3, &[8]),
            el(0x4282, doc.as_bytes()),
            el(0x4287, &[2]),
            el(0x4285, &[2]),
        ]),
    )
}
pub fn mk_info(dur: Option<f64>, scale: Option<u64>, date: Option<i64>) -> Vec<u8> {
    let mut b = vec![];
    if let Some(s) = scale {
        b.push(el(0x2AD7B1, &uint_be(s, 4)));
    }
    b.push(el(0x4D80, b"muxer"));
    if let Some(d) = dur {
        b.push(el(0x4489, &d.to_be_bytes()));
    }
    if let Some(d) = date {
        b.push(el(0x4461, &d.to_be_bytes()));
    }
    el(0x1549A966, &b.concat())
}
pub fn mk_video(w: u64, h: u64) -> Vec<u8> {
    el(
        0xAE,
        &cat(&[
            el(0xD7, &[1]),
            el(0x83, &[1]),
            el(0xE0, &cat(&[el(0xB0, &uint_be(w, 2)), el(0xBA, &uint_be(h, 2))])),
        ]),
    )
}
pub fn mk_audio() -> Vec<u8> {
    el(
        0xAE,
        &cat(&[
            el(0xD7, &[2]),
            el(0x83, &[2]),
            el(0xE1, &cat(&[el(0xB5, &44100f32.to_be_bytes()), el(0x9F, &[2])])),
        ]),
    )
}
pub fn mk_tracks(ts: &[Vec<u8>]) -> Vec<u8> {
    el(0x1654AE6B, &ts.concat())
}
pub fn mk_segment(parts: &[Vec<u8>]) -> Vec<u8> {
    elw(0x18538067, &parts.concat(), 8)
}
pub fn mkv(doc: &str, parts: &[Vec<u8>]) -> Vec<u8> {
    cat(&[ebml_head(doc), mk_segment(parts)])
}
pub fn void(n: usize) -> Vec<u8> {
    el(0xEC, &filler(n))
}
/// Seek head of fixed size for (element id, position relative to the segment's data)
pub fn seek_head(ents: &[(u64, u64)]) -> Vec<u8> {
    let mut b = vec![];
    for (id, pos) in ents {
        b.push(el(0x4DBB, &cat(&[el(0x53AB, &eid(*id)), el(0x53AC, &uint_be(*pos, 8))])));
    }
    el(0x114D9B74, &b.concat())
}
pub fn cluster(n: usize) -> Vec<u8> {
    el(0x1F43B675, &filler(n))
}

// ------------------------------------------------------------------ Motion Photo

pub fn xmp_seg(body: &str) -> Vec<u8> {
    let mut p = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
    p.extend_from_slice(
        format!("<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description {body}</rdf:Description></rdf:RDF></x:xmpmeta>").as_bytes(),
    );
    jseg(0xe1, &p)
}
pub fn motion_xmp(n: usize) -> Vec<u8> {
    xmp_seg(&format!(
        "GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoVersion=\"1\" GCamera:MotionPhotoOffset=\"{n}\">"
    ))
}
pub fn motion_photo(tiff: &[u8], pre: &[Vec<u8>], scan: usize, video: &[u8]) -> Vec<u8> {
    let mut segs = vec![jseg(0xe1, &exif_payload(tiff))];
    segs.extend_from_slice(pre);
    segs.push(motion_xmp(video.len()));
    let mut v = jpeg(&segs, &filler(scan));
    v.extend_from_slice(video);
    v
}
