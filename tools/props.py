import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=s) for s in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","No input can make the library panic, overflow, or loop forever",
 "For any byte sequence, delivered through any source and parsed by any entry point, the call returns a value or an error in time bounded by the input size, and so does everything a caller then does with the result (iterating, converting, looking up, formatting, serialising), whether or not the application records the library's log output. It never panics, never hits an arithmetic overflow or out-of-range slice, and never loops.",
 ["inputs"],"every input byte sequence, every entry point, every use of the result, with and without logging",
 "Tests sample a few corrupt files; the crash lives in one particular offset, count or nesting among astronomically many.",
 ["src/parser.rs","src/exif/exif_iter.rs","src/exif/travel.rs","src/bbox/*.rs","src/ebml/*.rs","src/heif.rs","src/cr3.rs","src/png.rs","src/jpeg.rs","src/raf.rs","src/values.rs"],
 ["IFD stack","visited offsets","box sizes","EBML cursor"],
 [("IFD walk","src/exif/exif_iter.rs"),("TIFF preload walk","src/exif/travel.rs"),("box header parsing","src/bbox.rs"),("EBML cursor arithmetic","src/ebml/webm.rs")],
 ["MediaSource constructors","MediaParser::parse_*","ExifIter","Exif","TrackInfo"])
p("C02","The way bytes are supplied never changes the result",
 "The same file content gives the same result, entry for entry and error kind for error kind, whether it is opened from a path, read from a seekable or an unseekable reader, handed over in memory, parsed by the asynchronous interface, or parsed by the one-call helpers. Where the metadata lies relative to internal buffer sizes does not matter. (A non-PNG file no longer than the 128-byte detection window may instead be reported as an unexpected end of input by streaming sources, and a declared size beyond what can be loaded or sought to may be refused as such or as an unexpected end.)",
 ["inputs","configurations"],"every file content and layout x every source kind x sync/async x entry point",
 "Streaming, skipping, growing and memory parsing are different code paths whose divergence depends on where a structure falls relative to 128 B, 8 KiB and 16 KiB windows; tests use a handful of fixed files.",
 ["src/parser.rs","src/parser_async.rs","src/exif.rs","src/png.rs","src/exif/travel.rs","src/lib.rs"],
 ["parse buffer","buffer position","carried parsing state"],
 [("parse loop","src/parser.rs BufParser::load_and_parse_with_offset"),("clear and skip","src/parser.rs BufParser::clear_and_skip"),("async twin","src/parser_async.rs")],
 ["MediaSource::{open,seekable,unseekable,from_memory}","AsyncMediaSource","read_* helpers"])
p("C03","Short reads, interrupts and pending polls never change the result",
 "However a reader splits the data into reads, interrupts a read with a retryable interruption, or (asynchronously) answers not-ready-yet before delivering, the parse result is the same as when everything is delivered at once. No bytes are lost, duplicated or reordered, and an interruption is never treated as end of data.",
 ["schedules","inputs"],"every schedule of read answers (sizes, interruptions, pending polls) for every file",
 "Ordinary readers return full reads; the space of read schedules is exponential and never visited by tests.",
 ["src/parser.rs","src/parser_async.rs"],["parse buffer"],
 [("fill buffer","src/parser.rs fill_buf"),("async fill buffer","src/parser.rs tokio_impl"),("header sniff","src/parser.rs MediaSource::build, src/parser_async.rs build")],
 ["MediaSource","AsyncMediaSource","MediaParser::parse_*"])
p("C04","A failing read or seek is reported as that failure and leaves the parser usable",
 "If the underlying reader fails at any read or seek the library issues while obtaining the metadata, the call returns an I/O error carrying that failure: never a success with partial data, a not-found verdict, or a format complaint. (A reader that itself reports an unexpected end of file is an end of data, not a failure.) A path that cannot be opened or read gives the system's error in the same way. The same parser afterwards gives correct results for the next file.",
 ["fault_sequences"],"every position of a read or seek failure in every parse, every error kind other than a retryable interruption",
 "Tests never inject reader failures; each call site swallowing or relabelling one error is invisible to them.",
 ["src/parser.rs","src/parser_async.rs","src/exif.rs","src/error.rs"],["parse buffer","cached buffer"],
 [("error conversion","src/error.rs"),("end-of-file tolerance","src/parser.rs parse_exif"),("embedded-track scan","src/exif.rs detect_motion_photo")],
 ["MediaParser::parse_*","Error::Io"])
p("C05","A reused parser behaves like a fresh one and never disturbs earlier results",
 "In any sequence of parses on one parser (successful or failing, images or tracks, streaming or in-memory, sync or async, also an asynchronous parse abandoned half-way), each result equals what a fresh parser returns for that source. Results handed out earlier, however far they have been iterated, cloned or moved, keep yielding exactly the same data while later parses run.",
 ["histories","schedules"],"every history of parse calls interleaved with uses and drops of earlier results",
 "The buffer is recycled when the previous result is dropped; stale bytes, stale positions or a still-shared buffer need a particular history of calls, failures and drops.",
 ["src/parser.rs","src/parser_async.rs"],["cached buffer","active buffer","position","memory mode"],
 [("buffer recycling","src/parser.rs BufferedParserState"),("reset","src/parser.rs reset")],
 ["MediaParser::parse_*","ExifIter","Exif","TrackInfo"])
p("C06","Cloning, rewinding and GPS look-up never change what an iterator yields",
 "From any point of iteration, a clone or a rewind starts again from the very first entry and yields the complete original sequence, and looking up GPS or the embedded-track flag neither moves the iterator nor depends on how far it has advanced. Advancing one clone never affects another, and an exhausted iterator stays exhausted.",
 ["histories"],"every sequence of next, clone, rewind, GPS look-up and conversion on every file, including files with several metadata blocks",
 "Iterator state (block index, duplicate filter, visited offsets, current directory) is spread over many fields; tests rewind only at a few points.",
 ["src/exif/exif_iter.rs"],["IFD stack","visited offsets","encountered tags","current block"],
 [("rewind","src/exif/exif_iter.rs ExifIter::rewind/clone_rewound"),("parse_gps","src/exif/exif_iter.rs ExifIter::parse_gps")],
 ["ExifIter"])
p("C07","Every EXIF entry is delivered once with exactly the value the file stores",
 "For any well-formed EXIF directory tree (either byte order, any nesting order, any placement of values and directories), iteration yields every entry of the main directory, its Exif and GPS sub-directories and the thumbnail directory once, in file order (a tag repeated in one directory index counts by its first occurrence), under the right directory index and tag. Each value is the exact decoding of its declared format, count and bytes, stored inline or at an offset; unknown tags are delivered by code.",
 ["inputs"],"every well-formed directory structure, byte order, format, count, value and placement",
 "Formats x counts x inline/offset x byte order x directory placement is a product space; fixtures hold a few points of it.",
 ["src/exif/exif_iter.rs","src/exif/exif_exif.rs","src/values.rs","src/exif/travel.rs"],["IFD cursor","TIFF header"],
 [("entry parsing","src/exif/exif_iter.rs IfdIter"),("value decoding","src/values.rs EntryValue::parse")],
 ["ExifIter","Exif"])
p("C08","A damaged entry is reported as an error and costs only itself",
 "When one EXIF entry is unreadable (unknown format, value out of range, wrong shape, bad date, a pointer to a sub-directory that dangles or was already visited), every other entry is still delivered with its correct value. The damaged entry itself is surfaced as an error with its directory and tag, both by the iterator and in the collected error list, and is never silently dropped or replaced by made-up data; the error names what is wrong (the declared format and count, or the bytes needed and available).",
 ["inputs","fault_sequences"],"every kind and position of entry damage in every directory",
 "Needs specific corrupt entries at specific positions; tests check files where all entries are good.",
 ["src/exif/exif_iter.rs","src/exif/exif_exif.rs","src/values.rs"],["IFD stack","error list"],
 [("per-entry error","src/exif/exif_iter.rs ExifIter::next"),("collected errors","src/exif/exif_exif.rs From<ExifIter>")],
 ["ExifIterEntry::result","Exif::errors"])
p("C09","GPS position, altitude and speed are exactly what the GPS tags say",
 "Latitude, longitude, hemispheres, altitude with its sea-level sign, and speed with its unit are taken unchanged from the GPS tags, identically by the iterator look-up and the collected view, wherever those tags appear; a GPS pointer that leads nowhere is an error of the look-up, a missing one is no position. Decimal degrees and the ISO 6709 text denote the same position, and parsing an ISO 6709 text yields the position it denotes to the stored precision.",
 ["inputs"],"every combination of present, absent and malformed GPS tags; every coordinate",
 "Hemisphere x presence x signed/unsigned x zero denominators x rounding carries is combinatorial; tests use a few landmarks.",
 ["src/exif/gps.rs","src/exif/exif_iter.rs","src/video.rs","src/mov.rs"],["GPS tags"],
 [("GPS tag collection","src/exif/exif_iter.rs parse_gps_info"),("ISO 6709 text","src/exif/gps.rs")],
 ["ExifIter::parse_gps","Exif::gps_info","TrackInfo::gps_info","GPSInfo","LatLng"])
p("C10","All PNG text chunks and the best EXIF source are found wherever they are",
 "Every tEXt chunk before the end marker is returned as a key/value pair in file order, and EXIF comes from the eXIf chunk if there is one, otherwise from the legacy raw profiles in their documented precedence, regardless of the order, number and size of the chunks (text of more than 1 MiB in one chunk, or beyond 16 MiB in total, is left out). Other chunks are skipped without being interpreted, and a damaged text chunk or profile does not hide the others.",
 ["inputs"],"every sequence of chunks, sizes and sources",
 "Chunk order x size class x legacy profile x source mode is combinatorial; tests use a handful of small fixtures.",
 ["src/png.rs","src/exif/png_text.rs","src/image_metadata.rs","src/exif.rs"],["chunk walker state"],
 [("chunk walker","src/png.rs extract_chunks"),("legacy profile decoding","src/png.rs")],
 ["MediaParser::parse_image_metadata","MediaParser::parse_exif","PngTextChunks"])
p("C11","JPEG EXIF is found in its APP1 segment whatever other segments surround it",
 "If a JPEG header contains an EXIF APP1 segment before the image data, its EXIF is returned no matter which other segments (including other APP1 users such as XMP) come before or after it, and how long they are. A well-formed JPEG without one is reported as having no EXIF, and bytes inside other segments or after the start of scan are never taken for EXIF.",
 ["inputs"],"every sequence of header segments and lengths",
 "Segment order x kind x length is combinatorial; sample files all put EXIF first.",
 ["src/jpeg.rs","src/exif.rs"],["segment cursor"],
 [("segment search","src/jpeg.rs find_exif_segment"),("EXIF marker check","src/exif/exif_exif.rs check_exif_header")],
 ["MediaParser::parse_exif"])
p("C12","HEIF/HEIC/AVIF, CR3 and RAF yield the EXIF their containers point to",
 "For HEIF-family files the EXIF is the item of type Exif located through the item-information and item-location tables, for every table version, field width and position in the file (file-offset construction, one extent); for CR3 it is the main (CMT1) and Exif (CMT2) metadata blocks of the Canon box merged, the first occurrence of a tag winning; for RAF it is that of the embedded preview JPEG. A container without EXIF, or whose tables are inconsistent, gives an error, never data from elsewhere.",
 ["inputs"],"every box order, table version, field width, item count, offset and size",
 "Version x width x construction method x position is a product space only sparsely covered by camera samples.",
 ["src/heif.rs","src/bbox/meta.rs","src/bbox/iinf.rs","src/bbox/iloc.rs","src/cr3.rs","src/bbox/cr3_moov.rs","src/bbox/uuid.rs","src/raf.rs"],["item tables"],
 [("item location","src/bbox/meta.rs exif_data_offset"),("CMT blocks","src/cr3.rs"),("RAF header","src/raf.rs")],
 ["MediaParser::parse_exif"])
p("C14","Movie metadata of MP4/MOV/3GP files is read correctly from any box layout",
 "Duration, dimensions, creation time, make, model, software, author and location reported for an ISO base-media file equal what its movie, track and metadata boxes encode, wherever the movie box lies in the file, for 32- and 64-bit box sizes, for 32- and 64-bit time fields, and with unknown boxes or several tracks around it. Absent information is absent from the result, never invented.",
 ["inputs"],"every order, size encoding, version and presence of boxes",
 "Box order x size encoding x field version x position relative to buffering is combinatorial; samples come from a few devices.",
 ["src/mov.rs","src/video.rs","src/bbox.rs","src/bbox/mvhd.rs","src/bbox/tkhd.rs","src/bbox/keys.rs","src/bbox/ilst.rs"],["movie box"],
 [("movie box search","src/mov.rs extract_moov_body_from_buf"),("movie header","src/bbox/mvhd.rs"),("track header","src/bbox/tkhd.rs"),("metadata keys/values","src/bbox/keys.rs, src/bbox/ilst.rs")],
 ["MediaParser::parse_track","TrackInfo"])
p("C15","Matroska/WebM track metadata is read correctly from any element layout",
 "Duration, dimensions, creation date, and other track facts reported for a Matroska or WebM file equal what its segment information and track entries encode, for every legal element order, integer and float width, variable-length size encoding and unknown or padding element in between. Absent information is absent from the result, never invented. (Files without any track list or segment information, and zero-length elements, are outside.)",
 ["inputs"],"every element order, width, size encoding and presence",
 "Element order x field width x track kinds is combinatorial; three sample files fix one point each.",
 ["src/ebml/webm.rs","src/ebml/element.rs","src/ebml/vint.rs","src/video.rs"],["EBML cursor"],
 [("segment info","src/ebml/webm.rs"),("element values","src/ebml/element.rs"),("variable-length ints","src/ebml/vint.rs")],
 ["MediaParser::parse_track","TrackInfo"])
p("C16","Format detection and wrong-kind calls give the documented verdict",
 "Every supported format is recognised from its leading bytes as image or track whatever follows (the identifying header has to lie within the first 128 bytes), and unrecognised or too-short content is reported as unsupported. Asking an image for a track or a track for EXIF gives the documented not-found error, structural damage is reported as malformed under the structure that is damaged or as an unexpected end, and detection is identical for every source kind.",
 ["inputs","configurations"],"every file signature and brand, every entry point",
 "Signature x brand list x entry point x source is a product; tests check one sample per format.",
 ["src/file.rs","src/parser.rs","src/parser_async.rs","src/lib.rs","src/error.rs"],["detected kind"],
 [("signature detection","src/file.rs"),("dispatch","src/parser.rs parse_exif/parse_track")],
 ["MediaSource::kind","MediaParser::parse_*","Error"])
p("C17","The embedded-track flag is set exactly when the embedded track can be had",
 "A JPEG is flagged as carrying an embedded track exactly when its XMP declares a Motion Photo in one of the documented ways, whatever the order and size of the segments. For a flagged, intact Motion Photo, asking for the track returns the metadata of the appended video, from every source kind, and an unflagged image gives track-not-found.",
 ["inputs","configurations"],"every XMP form, segment order and trailer, every source kind",
 "XMP attribute form x segment position x trailer x source kind is a product; tests use one synthetic photo.",
 ["src/jpeg.rs","src/exif.rs","src/parser.rs"],["segment cursor","trailer offset"],
 [("XMP scan","src/jpeg.rs scan_motion_photo"),("trailer parse","src/parser.rs parse_jpeg_motion_photo")],
 ["ExifIter::has_embedded_track","Exif::has_embedded_track","MediaParser::parse_track"])
p("C18","Value accessors, conversions, text and serialised forms agree and lose nothing",
 "For every value, exactly the accessors matching its type return it, integer widening to 64 bits is exact or refuses, conversions to floating point give the nearest double, and the text and serialised forms contain the full value so that different values of one type stay different. Tag, rational and coordinate conversions round-trip: code to tag to code and name to tag to name for every recognised tag, decimal degrees within half of one hundredth of an arc second.",
 ["inputs"],"every value of every type (all tag codes, boundary values of each numeric type)",
 "All 65536 tag codes and all type x accessor pairs are finite but far larger than the tests' samples.",
 ["src/values.rs","src/exif/tags.rs","src/exif/gps.rs","src/video.rs"],["value variants"],
 [("accessors","src/values.rs"),("tag tables","src/exif/tags.rs")],
 ["EntryValue","ExifTag","TagOrCode","TrackInfoTag","Rational","LatLng"])
p("C19","Memory and reading stay bounded by what the metadata needs",
 "Declared sizes and counts inside a file never cause allocations beyond a small multiple of the bytes actually supplied plus a fixed allowance. With a seekable source, payload that is not metadata (movie data of MP4/MOV files, image data of PNG files, image data between the item tables and the Exif item of HEIF files, and whatever follows the metadata of any format) is skipped by seeking and not read, and in-memory input is shared rather than copied. A reused parser does not hold on to the memory of an earlier large file beyond the next parse.",
 ["inputs"],"every declared size or count, every position of the payload",
 "Tests do not measure allocation or reads; one preallocation from a declared count is invisible to them.",
 ["src/parser.rs","src/parser_async.rs","src/bbox.rs","src/exif/exif_iter.rs","src/png.rs"],["parse buffer"],
 [("growth cap","src/parser.rs check_fill_size"),("skip by seek","src/parser.rs clear_and_skip"),("zero-copy share","src/parser.rs share_buf")],
 ["allocator","reader calls"])
p("C20","Date-times carry the recorded wall-clock time and exactly the recorded offset",
 "A date-time tag is delivered with the wall-clock time written in the file, combined with the offset recorded in the Exif directory when there is a readable one and without any offset otherwise, for every order of the tags, byte order and placement (in CR3 files, whose Exif data lies in a block of its own, date-times come without an offset). The machine's local time zone never influences any result, and the naive, aware and fallback-offset accessors of one value denote the same recorded time.",
 ["inputs","configurations"],"every combination of date-time and offset tags and texts, every local time zone setting",
 "Tag presence x order x offset text x environment is combinatorial; tests check a few cameras.",
 ["src/values.rs","src/exif/exif_iter.rs","src/bbox/mvhd.rs","src/mov.rs","src/video.rs"],["time-zone text"],
 [("offset discovery","src/exif/exif_iter.rs find_tz_offset"),("date-time decoding","src/values.rs EntryValue::parse")],
 ["EntryValue::as_datetime","ExifDateTime"])
p("C21","The collected EXIF view contains exactly what iteration yields",
 "Collecting an iterator loses and adds nothing: each value is retrievable by directory and tag or code and appears once when listing, each error is in the error list, and the plain look-up returns the main directory's value. GPS and the embedded-track flag are carried over unchanged, also when only part of the iterator had been consumed before conversion of a clone.",
 ["inputs","histories"],"every directory tree, tag placement and look-up",
 "Directory x tag x duplication x unknown codes is combinatorial; tests look up a few tags in one photo.",
 ["src/exif/exif_exif.rs","src/exif/exif_iter.rs","src/exif/ifd.rs","src/image_metadata.rs"],["directory maps","error list"],
 [("conversion","src/exif/exif_exif.rs From<ExifIter> for Exif"),("look-up","src/exif/exif_exif.rs get/get_in/get_by_code/iter")],
 ["Exif","ImageMetadata"])
p("C22","The command-line tool prints what the library returns",
 "For every file and option combination, the tool's text and JSON output contain exactly the entries the library yields for that file (with thumbnail entries, embedded track and format metadata included or left out as the options say), and one unreadable file in a directory does not affect the output for the others.",
 ["inputs","configurations"],"every file and every combination of options",
 "The tool has no tests of its output; options x file kinds is a product.",
 ["crates/rexiftool/src/main.rs"],["command-line options"],
 [("output","crates/rexiftool/src/main.rs parse_file/emit_json/print_pair")],
 ["process standard output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
