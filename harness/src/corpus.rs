//! Small files of every supported format, with the metadata on either side of the
//! library's internal windows (128 B sniff, 8 KiB first fill, 16 KiB growth).
use crate::b::*;
use crate::f::*;

#[derive(Clone)]
pub struct Seed {
    pub name: String,
    pub data: Vec<u8>,
    /// Image / Track
    pub image: bool,
    /// metadata is expected
    pub has: bool,
}

pub fn tiff_le() -> Vec<u8> {
    tiff(&sample_dir(), &Lay::new(false)).bytes
}
pub fn tiff_be() -> Vec<u8> {
    tiff(&sample_dir(), &Lay::new(true).order(Order::Reversed)).bytes
}
/// directories and values spread over several growth steps
pub fn tiff_wide(gap: usize, o: Order) -> Vec<u8> {
    let mut l = Lay::new(false).order(o);
    l.gap = gap;
    tiff(&sample_dir(), &l).bytes
}
fn second() -> Dir {
    dir(vec![
        en(0x829a, Val::URat(vec![(1, 8)])),
        en(0x9003, Val::s("2021:01:02 03:04:05")),
        en(0x010f, Val::s("Shadowed")),
        en(0xa002, Val::U32(vec![6000])),
    ])
}
pub fn cr3_blocks() -> Vec<([u8; 4], Vec<u8>)> {
    vec![
        (*b"CMT1", tiff(&sample_dir(), &Lay::new(false)).bytes),
        (*b"CMT2", tiff(&second(), &Lay::new(true)).bytes),
        (*b"CMT3", tiff(&tiny_dir(), &Lay::new(false)).bytes),
    ]
}

fn s(v: &mut Vec<Seed>, name: &str, image: bool, has: bool, data: Vec<u8>) {
    v.push(Seed {
        name: name.into(),
        data,
        image,
        has,
    })
}

/// One small file per format and main variant (all under 4 KiB).
pub fn small() -> Vec<Seed> {
    let mut v = vec![];
    let t = tiff_le();
    s(&mut v, "tiff-le", true, true, t.clone());
    s(&mut v, "tiff-be-rev", true, true, tiff_be());
    s(&mut v, "tiff-tiny", true, true, tiff(&tiny_dir(), &Lay { tail: 100, ..Lay::new(true) }).bytes);
    s(&mut v, "jpeg", true, true, jpeg_with_exif(&t));
    s(
        &mut v,
        "jpeg-app",
        true,
        true,
        jpeg(
            &[jfif(), xmp_seg("a=\"1\">"), jseg(0xe1, &exif_payload(&t)), jseg(0xfe, b"comment")],
            &filler(100),
        ),
    );
    s(&mut v, "jpeg-none", true, false, jpeg(&[jfif(), jseg(0xfe, b"comment")], &filler(200)));
    s(
        &mut v,
        "png",
        true,
        true,
        png(&[text_chunk("Title", b"hello"), chunk(b"eXIf", &t), chunk(b"IDAT", &filler(90)), text_chunk("After", b"x")]),
    );
    s(
        &mut v,
        "png-legacy",
        true,
        true,
        png(&[chunk(b"IDAT", &filler(90)), text_chunk("Raw profile type APP1", &raw_profile("APP1", &exif_payload(&tiff_be())))]),
    );
    s(&mut v, "png-none", true, false, png(&[chunk(b"IDAT", &filler(90))]));
    s(&mut v, "heic", true, true, Heif::new().build(&t));
    s(
        &mut v,
        "avif-v2",
        true,
        true,
        Heif {
            brand: *b"avif",
            compat: vec![*b"avif", *b"mif1"],
            iloc_ver: 2,
            iinf_ver: 1,
            infe_ver: 3,
            osz: 8,
            lsz: 8,
            bsz: 8,
            base: true,
            ident: false,
            ..Heif::new()
        }
        .build(&tiff_be()),
    );
    s(&mut v, "heif-mdat-first", true, true, Heif { brand: *b"mif1", mdat_first: true, ..Heif::new() }.build(&t));
    s(&mut v, "heic-none", true, false, Heif { with_exif: false, ..Heif::new() }.build(&t));
    s(&mut v, "cr3", true, true, Cr3::new(cr3_blocks()).build());
    s(&mut v, "raf", true, true, raf(&jpeg_with_exif(&t), 0, b"X-T4"));
    s(&mut v, "motion", true, true, motion_photo(&t, &[jfif()], 50, &mp4(&moov_full(), 0, 64, false)));
    s(&mut v, "mp4", false, true, mp4(&moov_full(), 0, 100, false));
    s(&mut v, "mov-tail", false, true, mp4(&moov_full(), 100, 0, true));
    s(&mut v, "3gp", false, true, cat(&[ftyp(b"3gp4", &[b"3gp4", b"isom"]), moov_full()]));
    s(
        &mut v,
        "mkv",
        false,
        true,
        mkv(
            "matroska",
            &[
                void(20),
                mk_info(Some(13_346.0), Some(1_000_000), Some(500_000_000_000_000_000)),
                mk_tracks(&[mk_audio(), mk_video(640, 360)]),
                cluster(100),
            ],
        ),
    );
    s(&mut v, "webm-seek", false, true, mkv_seek(50, "webm"));
    v
}

/// SeekHead, Cluster of n bytes, Tracks, Info
pub fn mkv_seek(n: usize, doc: &str) -> Vec<u8> {
    let info = mk_info(Some(2_000.0), None, None);
    let tracks = mk_tracks(&[mk_video(320, 200)]);
    let sh0 = seek_head(&[(0x1549A966, 0), (0x1654AE6B, 0)]);
    let cl = cluster(n);
    let t_at = (sh0.len() + cl.len()) as u64;
    let i_at = t_at + tracks.len() as u64;
    let sh = seek_head(&[(0x1549A966, i_at), (0x1654AE6B, t_at)]);
    assert_eq!(sh.len(), sh0.len());
    mkv(doc, &[sh, cl, tracks, info])
}

/// Files whose metadata lies behind the first fill and several growth steps.
pub fn large() -> Vec<Seed> {
    let mut v = vec![];
    let t = tiff_le();
    s(&mut v, "tiff-wide", true, true, tiff_wide(3000, Order::Natural));
    s(&mut v, "tiff-wide-rev", true, true, tiff_wide(3000, Order::Reversed));
    s(
        &mut v,
        "jpeg-far",
        true,
        true,
        jpeg(
            &[jfif(), jseg(0xe2, &filler(60_000)), xmp_seg("a=\"1\">"), jseg(0xe1, &exif_payload(&t))],
            &filler(3000),
        ),
    );
    s(
        &mut v,
        "png-far",
        true,
        true,
        png(&[
            text_chunk("Title", b"hello"),
            chunk(b"IDAT", &filler(40_000)),
            text_chunk("Big", &filler(9_000)),
            chunk(b"IDAT", &filler(20_000)),
            chunk(b"eXIf", &t),
            text_chunk("Last", b"end"),
        ]),
    );
    s(&mut v, "heic-far", true, true, Heif { lead: 40_000, ..Heif::new() }.build(&t));
    s(&mut v, "heic-far-pad", true, true, Heif { pad1: 9_000, pad2: 20_000, mdat64: true, ..Heif::new() }.build(&t));
    s(&mut v, "heic-mdat-first-far", true, true, Heif { mdat_first: true, lead: 30_000, ..Heif::new() }.build(&t));
    s(&mut v, "cr3-far", true, true, Cr3 { pad1: 20_000, inner: 10_000, ..Cr3::new(cr3_blocks()) }.build());
    s(
        &mut v,
        "raf-far",
        true,
        true,
        raf(&jpeg(&[jseg(0xe2, &filler(30_000)), jseg(0xe1, &exif_payload(&t))], &filler(10)), 20_000, b"X"),
    );
    s(&mut v, "motion-far", true, true, motion_photo(&t, &[jseg(0xe2, &filler(60_000))], 40_000, &mp4(&moov_full(), 30_000, 0, false)));
    s(&mut v, "mp4-far", false, true, mp4(&moov_full(), 50_000, 0, false));
    s(&mut v, "mov-far", false, true, mp4(&moov_full(), 20_000, 20_000, true));
    s(
        &mut v,
        "mkv-far",
        false,
        true,
        mkv("matroska", &[void(30_000), mk_info(Some(1.0), None, None), void(20_000), mk_tracks(&[mk_video(64, 32)])]),
    );
    s(&mut v, "webm-seek-far", false, true, mkv_seek(50_000, "webm"));
    v
}
pub fn all() -> Vec<Seed> {
    let mut v = small();
    v.extend(large());
    v
}
