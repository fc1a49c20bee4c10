#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "No input, however malformed, makes any entry point panic",
  "For every byte string presented as a media file, every parsing entry point (EXIF, track, image metadata, combined; sync, async, in-memory; lazy and eager) returns a result or a typed error and never panics, aborts or overflows the stack. Walking the returned objects (iterating, rewinding, cloning, GPS extraction, formatting, serialising) never panics either.",
  ["inputs"], "every byte string of any length, through every entry point, in builds with and without overflow checks",
  "The tests sample a few dozen well-formed files plus six saved crash files; the panicking inputs are corrupted length/offset/count fields that only appear in files nobody has checked in.",
  ["src/parser.rs", "src/parser_async.rs", "src/bbox.rs", "src/bbox/iloc.rs", "src/bbox/meta.rs", "src/heif.rs", "src/ebml/webm.rs", "src/ebml/element.rs", "src/exif/travel.rs", "src/exif/exif_iter.rs", "src/png.rs", "src/jpeg.rs", "src/raf.rs", "src/values.rs", "src/exif/gps.rs"],
  [("nom streaming/complete parsers returning errors for short input", "src/bbox.rs, src/jpeg.rs, src/ebml/*.rs"), ("checked slices of the shared buffer", "src/slice.rs, src/exif/exif_iter.rs"), ("IFD depth limit", "src/exif/travel.rs MAX_IFD_DEPTH")])

p("C02", "Work, memory and bytes read stay bounded by the input",
  "For every byte string, parsing and fully walking the result terminates; the work done and the peak memory allocated are bounded by a modest function of the number of bytes the source really contains, never by a length, count or offset claimed inside the file. The eager form may hold every value the lazy form reports, and no more. A source is never read past its end more than to learn that it has ended, and is never asked for the same bytes without bound.",
  ["inputs"], "every byte string, including self-referential offsets, huge declared sizes and counts, cyclic or fan-out directory structures",
  "Tests include one endless-loop file and a few oversize files; amplification depends on combinations of declared sizes, repeated offsets and nesting that a handful of files cannot cover.",
  ["src/parser.rs", "src/exif/travel.rs", "src/exif/exif_iter.rs", "src/bbox.rs", "src/png.rs", "src/jpeg.rs", "src/ebml/webm.rs"],
  [("buffer growth cap and read-until-needed", "src/parser.rs MAX_PARSE_BUF_SIZE, fill_buf"), ("visited offsets and depth limit", "src/exif/exif_iter.rs visited_offsets; src/exif/travel.rs"), ("chunk size caps", "src/png.rs")])

p("C03", "The result does not depend on how the bytes are supplied",
  "For every media file longer than the 128-byte header window, opening it by path, as a seekable reader, as a read-only stream or as an in-memory buffer yields the same kind, the same EXIF entries, track info, text metadata and embedded-track flag (or fails in all of them). The answer does not depend on how many bytes each read call happens to return, nor on interrupted reads.",
  ["inputs", "schedules"], "every media file × source mode × sequence of partial-read sizes",
  "Tests read a fixed set of small files with full reads; disagreement needs metadata beyond the initial buffer, skips larger than the buffer, or a read boundary inside a structure.",
  ["src/parser.rs", "src/png.rs", "src/mov.rs", "src/heif.rs", "src/cr3.rs", "src/jpeg.rs", "src/ebml/webm.rs", "src/exif/exif_iter.rs"],
  [("load_and_parse need/skip protocol", "src/parser.rs"), ("memory-mode short-circuit", "src/parser.rs"), ("seek-or-read skip", "src/parser.rs skip_by_seek / skip_by_read")],
  state=[("buf/position", "window of the source currently loaded and where parsing resumes", "src/parser.rs BufferedParserState")])

p("C04", "Async parsing returns exactly what sync parsing returns",
  "For every media file and every pattern of pending or partial async reads, each async entry point produces the same result (or fails likewise) as its synchronous counterpart on the same bytes.",
  ["inputs", "schedules"], "every media file × async source kind × pattern of Pending/partial reads",
  "Async tests cover a few files with a ready-made tokio file; async code is a hand-maintained duplicate of the sync path, so any format or fallback can be missing from one side only.",
  ["src/parser_async.rs", "src/exif/exif_iter.rs", "src/image_metadata.rs", "src/png.rs", "src/parser.rs", "src/lib.rs"],
  [("shared parse loop re-implemented with async fill", "src/parser_async.rs"), ("parse_*_async mirrors", "src/parser.rs, src/exif/exif_iter.rs")])

p("C05", "A reused parser behaves like a fresh one",
  "For every history of parses on one parser (any mix of files, source kinds, entry points, sync/async, successes and failures), each parse returns exactly what a fresh parser would return on that source. Objects returned by earlier parses keep yielding the same contents no matter what the parser or other objects do afterwards.",
  ["histories"], "every sequence of parse calls, interleaved with keeping, dropping, cloning and reading earlier results",
  "Tests reuse a parser over short fixed lists of valid files; buffer recycling bugs need a specific order of sizes, failures and still-alive results.",
  ["src/parser.rs", "src/parser_async.rs", "src/exif/exif_iter.rs"],
  [("buffer reset and recycling only when uniquely owned", "src/parser.rs acquire_buf/reset/share_buf")],
  state=[("cached buffer", "allocation shared with earlier results and reclaimed when unique", "src/parser.rs")])

p("C06", "Every supported directory entry decodes to exactly what the file encodes",
  "For every well-formed TIFF/EXIF block, in either byte order and with any placement of directories and values, the set of entries produced (directory, tag, value) equals the encoded one: no entry is lost, invented, duplicated or attributed to another directory, and integers, rationals, text, bytes and arrays come back bit-exact. Unknown tags are kept under their numeric code.",
  ["inputs"], "every tree of directories (main, thumbnail, Exif, GPS), every tag/type/count/value combination, every layout and byte order",
  "Golden files contain a few hundred entries from a few cameras, nearly all little- or big-endian with conventional layout; the count/type/offset/inline boundary space is not sampled.",
  ["src/exif/exif_iter.rs", "src/exif/travel.rs", "src/values.rs", "src/exif/tags.rs", "src/slice.rs"],
  [("IFD entry parsing, inline vs offset values", "src/exif/exif_iter.rs IfdIter"), ("typed decoding", "src/values.rs EntryValue::parse"), ("sub-IFD and next-IFD travel", "src/exif/exif_iter.rs")])

p("C07", "EXIF content is independent of the container that carries it",
  "The same EXIF block embedded in a JPEG, HEIC/HEIF, AVIF, PNG, RAF or bare TIFF file yields the same entries in each, whatever other valid segments, boxes or chunks surround it and however large they are. For a multi-block raw file the result is the union of its blocks in the documented directories.",
  ["inputs"], "every EXIF block × container × surrounding valid structure",
  "One or two sample files per container exist, each written by one producer with one box/segment layout.",
  ["src/jpeg.rs", "src/heif.rs", "src/bbox/meta.rs", "src/bbox/iinf.rs", "src/bbox/iloc.rs", "src/png.rs", "src/raf.rs", "src/cr3.rs", "src/bbox/cr3_moov.rs", "src/bbox/uuid.rs", "src/exif/exif_iter.rs"],
  [("segment/box/chunk walkers locating the EXIF range", "src/jpeg.rs, src/heif.rs, src/png.rs, src/raf.rs, src/cr3.rs"), ("iloc resolution", "src/bbox/meta.rs exif_data_offset")])

p("C08", "Lazy, eager, cloned and rewound views of one parse agree",
  "For every parse result, iterating lazily, converting to the eager form, cloning-and-rewinding or rewinding at any point, and extracting GPS at any point all describe the same entries; rewinding restarts at the first entry, cloning never disturbs the original, and GPS extraction neither depends on nor changes the iteration position. A lookup by tag, by code, by directory and a full listing of the eager form are mutually consistent.",
  ["histories", "inputs"], "every interleaving of next/clone/rewind/GPS/convert operations over every parse result",
  "Tests clone or rewind once at fixed points of single-block files; shared position, visited-offset and multi-block state only misbehave after particular histories.",
  ["src/exif/exif_iter.rs", "src/exif/exif_exif.rs"],
  [("rewind/clone_rewound reset", "src/exif/exif_iter.rs"), ("eager conversion", "src/exif/exif_exif.rs From<ExifIter>")],
  state=[("ifd stack, visited offsets, pending blocks", "iteration progress", "src/exif/exif_iter.rs ExifIter")])

p("C09", "One bad entry never hides the good ones and is itself reported",
  "For every EXIF block in which some entries are malformed (value out of range, impossible type, count or shape), all the other entries still decode to the same values as without the damage, in lazy and eager form. Each malformed entry is reported as an error for its own directory and tag, in both forms, and never as an invented value.",
  ["inputs", "fault_sequences"], "every well-formed block × every subset of entries damaged in every supported way",
  "Only one or two hand-damaged files exist and no test checks that the rest of the entries are unchanged or that the error is listed.",
  ["src/exif/exif_iter.rs", "src/exif/exif_exif.rs", "src/error.rs", "src/values.rs"],
  [("per-entry Result", "src/exif/exif_iter.rs ExifIterEntry"), ("collected errors", "src/exif/exif_exif.rs errors()")])

p("C10", "Dates combine with their own time zone and nothing else",
  "For every date-time entry and every combination of offset entries in the file, the reported moment is the encoded wall-clock time, carrying the encoded UTC offset when a valid applicable offset entry exists and none otherwise; the position or order of the offset and date entries does not matter. A date's own offset entry comes first; only without one may another offset entry of the file stand in. Malformed or absent offsets never shift, drop or corrupt the date.",
  ["inputs"], "every valid calendar time × offset string × presence/order/location of offset entries",
  "Tests use a few fixed strings; the offset is found by a side search whose result depends on directory layout and order.",
  ["src/exif/exif_iter.rs", "src/values.rs"],
  [("time-zone search and repair", "src/exif/exif_iter.rs find_tz_offset, values.rs repair_tz_str"), ("ExifDateTime", "src/values.rs")])

p("C11", "GPS position reported equals the GPS entries encoded",
  "For every image whose GPS directory holds latitude, longitude and optional altitude and speed, the reported position has exactly those degrees/minutes/seconds, hemispheres, altitude with sign, and speed with unit. It is the same from the lazy and the eager form, in every container and byte order, and its decimal-degree and ISO 6709 renderings denote that same position. A GPS directory without a usable latitude or longitude yields no position.",
  ["inputs"], "every combination of GPS entries, references, rationals, order and byte order",
  "A couple of sample coordinates, all in the northern/eastern hemispheres above sea level, are asserted.",
  ["src/exif/gps.rs", "src/exif/exif_iter.rs", "src/exif/exif_exif.rs"],
  [("GPS IFD scan", "src/exif/exif_iter.rs parse_gps"), ("to_iso6709 / to_decimal_degrees", "src/exif/gps.rs")])

p("C12", "Coordinates survive conversion to and from decimal degrees and ISO 6709",
  "For every finite coordinate in range, converting decimal degrees to degrees/minutes/seconds and back returns it within the stated rounding, and out-of-range or non-finite input is rejected; minutes and seconds are always below 60. Parsing an ISO 6709 string yields the position it denotes, rendering that position and parsing it again returns the same position, and malformed strings are rejected without panic.",
  ["inputs"], "all finite doubles, all ISO 6709 strings in the documented forms, and arbitrary strings",
  "Tests assert a dozen literal strings; rounding and sign errors live at sub-degree, zero and carry boundaries.",
  ["src/exif/gps.rs", "src/values.rs", "src/video.rs"],
  [("LatLng::try_from_decimal_degrees / to_decimal_degrees", "src/exif/gps.rs"), ("FromStr for GPSInfo, to_iso6709", "src/exif/gps.rs")])

p("C13", "MP4/MOV/3GP track metadata equals what the container encodes",
  "For every well-formed ISO base-media file, the reported creation time, duration, dimensions, make, model, software, author and GPS position equal those encoded, whichever supported metadata placement is used (QuickTime keys/ilst, ©xyz, 3GPP auth), wherever the movie box lies, and whatever other boxes or media data surround it. Fields the file does not encode are absent.",
  ["inputs"], "every box tree with metadata in any supported placement, any box order, sizes (32/64-bit, to-end), versions and surrounding data",
  "Five sample videos exist; box order, large media data before the movie box, 64-bit fields and multiple tracks are not varied.",
  ["src/mov.rs", "src/bbox.rs", "src/bbox/keys.rs", "src/bbox/ilst.rs", "src/bbox/mvhd.rs", "src/bbox/tkhd.rs", "src/video.rs", "src/file.rs"],
  [("moov extraction by skipping", "src/mov.rs extract_moov_body"), ("keys/ilst/udta decoding", "src/bbox/*.rs"), ("track header selection", "src/bbox/tkhd.rs")])

p("C14", "Matroska/WebM track metadata equals what the container encodes",
  "For every well-formed Matroska or WebM file, the reported duration, creation date and video dimensions equal those encoded, for every legal encoding width of sizes, integers and floats, any element order, void elements and seek-table layout. Fields the file does not encode are not invented.",
  ["inputs"], "every legal EBML encoding of the segment information and track tables",
  "Three sample files from two muxers are asserted; EBML has many legal encodings of the same content that these muxers never emit.",
  ["src/ebml/webm.rs", "src/ebml/element.rs", "src/ebml/vint.rs", "src/file.rs"],
  [("vint and element headers", "src/ebml/vint.rs, src/ebml/element.rs"), ("SeekHead / Info / Tracks parsing", "src/ebml/webm.rs")])

p("C15", "PNG text and EXIF come back exactly, from the right chunk",
  "For every PNG, all standard text chunks are reported in file order with exact Latin-1 keyword and text (including duplicates), wherever they lie relative to image data of any size. The EXIF reported is the one in the highest-priority carrier present (native chunk, then the two legacy text profiles), and a damaged legacy text profile or an absent carrier never prevents the text or a lower-priority carrier from being reported. Text beyond the documented size caps (1 MiB a chunk, 16 MiB in all) may be left out.",
  ["inputs"], "every sequence of chunks with any keywords, payloads, sizes and EXIF carriers",
  "Five small sample PNGs are asserted; carriers after large image data, duplicate keywords and damaged profiles are not combined.",
  ["src/png.rs", "src/exif/png_text.rs", "src/image_metadata.rs", "src/parser.rs"],
  [("chunk walk with size caps", "src/png.rs"), ("legacy hex profile decoding", "src/png.rs")])

p("C16", "Motion photos: embedded video flagged and its track returned",
  "A JPEG is flagged as carrying an embedded track exactly when its XMP declares a motion photo with a usable trailer reference, wherever the XMP segment lies; for a flagged file the track parser returns the metadata of exactly the appended video. An unflagged image yields a 'track not found' error from the track parser and never some other data.",
  ["inputs", "configurations"], "every placement and form of the XMP declaration, trailer size and source kind",
  "One synthetic sample read one way is asserted; trailing padding, other segments, offsets and source kinds vary in the field.",
  ["src/jpeg.rs", "src/parser.rs", "src/exif/exif_iter.rs", "src/parser_async.rs"],
  [("XMP scan", "src/jpeg.rs find_motion_photo_offset"), ("trailer re-parse", "src/parser.rs parse_track")])

p("C17", "Content is classified by what it is and misuse gets the right error",
  "For every well-formed file of a supported format longer than the 128-byte header window the detected kind is image or track according to its content, whatever its producer's brand, and unsupported or empty content is rejected with a typed error and no guess. Asking for the metadata type the content does not have yields the specific not-found error, never a wrong-kind result.",
  ["inputs"], "every supported format signature with every legal brand list, and arbitrary other bytes",
  "Tests list a few brands and files; brand lists, header lengths and near-miss signatures are not varied.",
  ["src/file.rs", "src/parser.rs", "src/error.rs", "src/cr3.rs", "src/raf.rs"],
  [("magic and brand detection", "src/file.rs"), ("kind dispatch", "src/parser.rs")])

p("C18", "Values print, convert and serialise without loss or contradiction",
  "For every metadata value, each typed accessor returns the value exactly when it is of that type and nothing otherwise, the text and serialised forms denote the same value untruncated, and no conversion silently wraps, changes sign or divides by zero. Conversions documented as fallible fail exactly on the values they cannot represent. (JSON has no NaN or infinity; times are judged for years 0 to 9999.)",
  ["inputs"], "every value variant and payload including extremes, NaN, zero denominators, non-ASCII text and long arrays",
  "Tests print and convert a few literals per variant.",
  ["src/values.rs", "src/exif/exif_exif.rs", "src/error.rs"],
  [("EntryValue accessors, Display, Serialize", "src/values.rs"), ("Rational conversions", "src/values.rs")])

p("C19", "Tag names and codes are a consistent bijection; unknown codes are kept",
  "For every 16-bit tag code, looking up the tag by code and taking its code back is the identity for known tags and yields nothing for unknown ones; every known tag's name parses back to that tag, names are unique, and no other string parses. Entries with unknown codes are reported under that very code, and lookups by code and by tag agree.",
  ["inputs"], "all 65,536 codes, all names, and arbitrary strings",
  "Tests check a handful of tags of well over a hundred; a swapped code or duplicate name in the table is invisible to them.",
  ["src/exif/tags.rs", "src/exif/exif_exif.rs", "src/video.rs"],
  [("tag table macro", "src/exif/tags.rs")])

p("C20", "I/O errors are passed through and leave the parser usable",
  "For every point at which the underlying source fails (read or seek error), a parse that still needs data reports that I/O error, and a parse that succeeds reports exactly what it reports without the fault; no fault yields partial or different metadata. Temporary interruptions are retried, and the parser works normally on the next source.",
  ["fault_sequences", "histories"], "every position and kind of injected read or seek failure over every media file and entry point",
  "Tests never inject a failing reader in the middle of a parse beyond one or two hand-written cases.",
  ["src/parser.rs", "src/parser_async.rs", "src/jpeg.rs"],
  [("fill_buf error mapping", "src/parser.rs"), ("skip by seek error propagation", "src/parser.rs")])

p("C21", "Truncating or extending a file never invents or alters metadata",
  "For every well-formed file cut short at any byte, each entry point either fails or reports only metadata equal to that of the whole file (possibly fewer items), never a different value for the same item; a date may lose its zone, a position its altitude or speed, which are items of their own. Appending arbitrary bytes after a complete image or video container that ends its metadata (no open-ended box or segment, no trailer found from the end) does not change what is reported.",
  ["inputs", "crash_points"], "every well-formed file × every truncation point × every trailing byte string",
  "No test truncates a file at arbitrary points and compares the surviving metadata with the original.",
  ["src/parser.rs", "src/exif/exif_iter.rs", "src/exif/travel.rs", "src/bbox.rs", "src/png.rs", "src/ebml/webm.rs", "src/jpeg.rs"],
  [("bounds-checked decoding", "src/slice.rs, src/exif/exif_iter.rs"), ("need-more handling at end of input", "src/parser.rs")])

p("C22", "The command-line tool prints what the library reports",
  "For every supported file, the tool's plain and JSON outputs list exactly the metadata the library reports for that file, JSON is well formed and loses no entries, a file that fails to parse is reported on standard error, without hiding the other files of a directory, and the exit status for a single file reflects success or failure (an image without metadata is a success). JSON keeps the entries of further directories and repeated text keywords apart, as its documentation says.",
  ["inputs", "configurations"], "every media file and directory of files × every option combination",
  "CLI tests run a few invocations on the sample directory.",
  ["crates/rexiftool/src/main.rs", "src/lib.rs"],
  [("parse_file / print loops", "crates/rexiftool/src/main.rs")])

p("C23", "One-shot helpers and deprecated forms agree with the parser API",
  "For every file, the one-shot helpers, their async, combined and deprecated byte-buffer variants return exactly what the reusable parser returns for the same content, and the combined helper dispatches to the kind the content has. The image-metadata entry point's EXIF part equals the plain EXIF entry point's result, and it fails likewise when there is neither EXIF nor format metadata.",
  ["inputs"], "every media file × every equivalent public entry point",
  "Tests call each helper on one or two files and check one tag.",
  ["src/lib.rs", "src/parser.rs", "src/image_metadata.rs", "src/exif/exif_iter.rs"],
  [("helper wrappers", "src/lib.rs"), ("parse_image_metadata", "src/image_metadata.rs, src/parser.rs")])

p("C24", "Parse errors name what actually went wrong",
  "For every input that fails, the error category matches the cause: I/O failure, unsupported format, missing EXIF or track in a valid container, premature end of input, or a malformed structure named after the structural unit that is malformed. A valid container without metadata is never reported as malformed, and one whose metadata carrier is present but broken is never reported as merely lacking metadata or as having empty metadata (an undecodable PNG text profile is plain text, not a carrier). A file that ends early is reported as ended early (directly or as the I/O error of that name).",
  ["inputs", "fault_sequences"], "every well-formed container with or without metadata × structural corruption kind",
  "Tests assert error variants for a few files only.",
  ["src/error.rs", "src/parser.rs", "src/jpeg.rs", "src/png.rs", "src/bbox.rs", "src/heif.rs", "src/ebml/webm.rs"],
  [("structured Error/MalformedKind mapping", "src/error.rs, src/parser.rs")])

p("C25", "Media data is passed over: how much there is changes nothing",
  "For every well-formed file, the amount of media data or other unneeded payload (movie data, clusters, image items, PNG image data, free space, appended data), up to many gigabytes, changes nothing about what is reported. A seekable source is not asked for media data that can be passed over, the memory held while parsing does not grow with it whatever the source (but for a motion photo whose video is asked for, and formats that keep media data in front of their metadata, other than MP4/MOV and PNG), and a buffer handed over in memory is not copied.",
  ["inputs", "configurations"], "every well-formed file x amount and kind of media data, below and beyond the 32-bit limits x source mode",
  "The sample files are small: sizes beyond 4 GiB, 64-bit box sizes and offsets in use, and the cost of passing over media data never occur in a test.",
  ["src/parser.rs", "src/parser_async.rs", "src/mov.rs", "src/bbox.rs", "src/png.rs", "src/heif.rs", "src/bbox/iloc.rs", "src/jpeg.rs", "src/ebml/webm.rs"],
  [("clear_and_skip, skip by seek", "src/parser.rs, src/parser_async.rs"), ("64-bit box sizes", "src/bbox.rs BoxHeader::parse"), ("zero-copy memory source", "src/parser.rs set_memory")])

p("C26", "Neither logging nor other threads change what is reported",
  "For every input, parsing and walking the result gives the same with a log subscriber installed (any level, any format) as without, and the same on any number of threads at once, each with a parser of its own, as alone. A result made by one thread and shared with or cloned into others reads the same in each of them, whatever they do with it. Writing the log never panics.",
  ["inputs", "configurations", "schedules"], "every input x log level and format; sets of parses spread over threads",
  "The tests run with whatever subscriber was installed first and look only at their own file; a log statement that slices, unwraps or consumes, and state shared between parsers, stay unseen.",
  ["src/parser.rs", "src/parser_async.rs", "src/exif.rs", "src/exif/exif_iter.rs", "src/mov.rs", "src/bbox.rs", "src/ebml/webm.rs", "src/jpeg.rs"],
  [("instrumented functions and Debug forms", "src (tracing::instrument, impl Debug)"), ("shared buffers", "src/parser.rs share_buf, BufferedParserState"), ("clones of an iterator", "src/exif/exif_iter.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
