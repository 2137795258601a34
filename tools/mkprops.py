#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("P01", "Every call returns: no input or call sequence panics, aborts or hangs",
 "For any byte stream served by any reader, and any sequence of calls to the public methods with any arguments (including calls made after an earlier call returned an error), and given memory enough for the image, every call returns: it never panics (with overflow and debug assertions on as well), aborts or runs forever. This holds in every feature configuration.",
 ["inputs","histories","configurations","fault_sequences"], "all byte strings, all call sequences, all reader faults, all feature sets; running out of memory on huge declared dimensions excluded",
 "The crash tests replay a fixed set of files through one call, decode(), in one configuration; the input space, the API histories and faults in the reader are unsampled.",
 ["src/decoder.rs","src/parser.rs","src/huffman.rs","src/decoder/lossless.rs","src/upsampler.rs","src/worker/mod.rs"],
 [("segment validation before use","src/parser.rs parse_*"),("checks before unwrap / indexing in scans","src/decoder.rs decode_scan"),("wrapping arithmetic in IDCT","src/idct.rs")],
 ["return of every Decoder method"])

prop("P02", "A successful decode returns exactly the image that info() describes",
 "Whenever decode returns Ok, info() is Some and the buffer has exactly width x height x bytes-per-pixel bytes; width and height are those of the frame header (or those the last scale call returned), and the coding process is that of the frame header. The pixel format is L8 for one component of at most 8 bits, L16 for one component of more than 8 bits, RGB24 for three components and CMYK32 for four.",
 ["inputs","histories","configurations"], "all decodable images of every coding process, component count, precision, size and scale",
 "Reference images cover about sixty shapes; size agreement is only asserted for those, never for precisions other than 8/12/16, scaled lossless images or extreme dimensions.",
 ["src/decoder.rs","src/decoder/lossless.rs","src/worker/mod.rs"],
 [("info() mapping","src/decoder.rs Decoder::info"),("row cropping","src/decoder.rs compute_image"),("u8/u16 conversion","src/decoder/lossless.rs convert_to_u8")],
 ["Decoder::decode","Decoder::info"])

prop("P03", "Sequential DCT images decode to the samples they encode",
 "For every well-formed Huffman-coded sequential DCT stream (baseline and extended), with its components in one interleaved scan, in separate scans, or grouped in any mixture, and with any image size and supported sampling factors, each output sample is the inverse DCT of the encoded coefficients multiplied by the component's quantization table, placed at its position, to within rounding.",
 ["inputs","configurations"], "all sizes, sampling factors, scan groupings, coefficient values and tables of valid sequential streams",
 "Pixel comparison against PNGs covers a few dozen files with common samplings; scan groupings with partial blocks, odd sampling factors and long codes are absent.",
 ["src/decoder.rs","src/huffman.rs","src/idct.rs","src/worker/immediate.rs"],
 [("MCU iteration and row hand-off","src/decoder.rs decode_scan"),("block decoding","src/decoder.rs decode_block"),("dequantization and IDCT","src/idct.rs")],
 ["Decoder::decode"])

prop("P04", "Progressive images decode to the coefficients all their scans delivered",
 "A progressive stream decodes to the same image as a sequential stream carrying the same coefficients, whatever the order and splitting of its scans into spectral bands, successive-approximation bits and components, and however end-of-band runs, zero runs and correction bits are used. If the stream ends with some bands or bits undelivered, the image shows exactly the values delivered so far (missing bits and coefficients as zero).",
 ["inputs","histories"], "all legal scan scripts (complete or cut short after a scan) over all coefficient values",
 "Nine progressive reference files use the few scripts common encoders emit; the interaction of refinement, runs, signs and component completion order is a combinatorial space.",
 ["src/decoder.rs"],
 [("first-pass and refinement decoding","src/decoder.rs decode_block, decode_block_successive_approximation, refine_non_zeroes"),("per-component completion mask","src/decoder.rs coefficients_finished"),("rendering unfinished components","src/decoder.rs decode_planes")],
 ["Decoder::decode"])

prop("P05", "Restart intervals are transparent and strictly checked",
 "For every restart interval and coding process (sequential, progressive, lossless), a stream decodes to the same image as the stream without restarts: prediction and run state restart at each marker, the markers cycle 0 to 7, and none is needed after the last unit. A missing restart marker, one with the wrong number, or a different marker where a restart is due makes decode fail with a format error; the interval in force is the most recently defined one and zero disables restarts.",
 ["inputs"], "all intervals, image sizes, scan types and positions of a wrong or missing marker",
 "One reference file has restarts; wrong, missing or more than a few markers and redefinition between scans are not tested.",
 ["src/decoder.rs","src/decoder/lossless.rs","src/parser.rs"],
 [("restart handling in the MCU loop","src/decoder.rs decode_scan"),("lossless restart handling","src/decoder/lossless.rs"),("parse_dri","src/parser.rs")],
 ["Decoder::decode"])

prop("P06", "Huffman bit streams are decoded exactly, for every valid table",
 "For every prefix code a DHT segment can define (any mix of lengths 1 to 16, including an all-ones codeword), each coded symbol and its extra bits are decoded exactly, with FF 00 read as a data byte FF and a marker (optionally preceded by fill bytes) ending the segment, after which missing bits read as zero. Code-length lists that are over-subscribed, empty or longer than the segment are rejected, and a bit pattern that no codeword prefixes is a format error.",
 ["inputs"], "all code-length lists and value lists, all bit strings, all placements of FF bytes, fill bytes and markers",
 "Test files use near-standard tables; codes longer than the lookup width, degenerate tables and markers at every bit alignment are not covered.",
 ["src/huffman.rs","src/parser.rs"],
 [("canonical code derivation and lookup tables","src/huffman.rs HuffmanTable::new, derive_huffman_codes"),("bit reader","src/huffman.rs read_bits, decode, decode_fast_ac")],
 ["Decoder::decode"])

prop("P07", "Malformed and unsupported streams are refused with the right kind of error",
 "decode and read_info return Ok only if every marker segment up to the point they reach satisfies the syntax rules of its type and its placement. A violated rule gives a Format error; a recognised but unimplemented feature (arithmetic coding, hierarchical or differential frames, DNL, sample precision, component count, non-integer subsampling) gives Unsupported naming that feature.",
 ["inputs","histories"], "all sequences of marker segments with all field values",
 "The tests contain no assertion on any error result.",
 ["src/parser.rs","src/decoder.rs","src/marker.rs","src/error.rs"],
 [("segment parsers","src/parser.rs"),("marker dispatch","src/decoder.rs decode_internal"),("marker classification","src/marker.rs")],
 ["Decoder::decode","Decoder::read_info"])

prop("P08", "Scans use the tables in force when they start",
 "Each scan uses, for each selected destination, the Huffman and quantization table most recently defined before it; defining some destinations leaves the others unchanged, segments may carry several tables of 8- or 16-bit precision, and a component's samples are computed with the quantization table in force when its last needed scan starts (at end of image if it never completes). Using an undefined table is a format error, except that streams marked as Motion-JPEG (AVI1) fall back to the standard Huffman tables for undefined destinations 0 and 1 only.",
 ["inputs","histories"], "all sequences of table definitions, redefinitions and scans",
 "Files in the suite define tables once, before the scans; redefinition, partial redefinition and undefined destinations are not exercised.",
 ["src/decoder.rs","src/parser.rs","src/huffman.rs"],
 [("table replacement","src/decoder.rs DHT/DQT arms"),("presence checks","src/decoder.rs decode_scan"),("default tables","src/huffman.rs fill_default_mjpeg_tables")],
 ["Decoder::decode"])

prop("P09", "Truncation and reader errors always surface, never as a picture",
 "If the stream ends before its end-of-image marker, at any byte, decode returns an error (an unexpected-end I/O error unless the bytes already read are malformed); read_info needs only the bytes up to the end of the frame header. If the reader returns an error other than Interrupted while a call still needs data, that call returns an I/O error of the same kind; Interrupted is retried and changes nothing.",
 ["fault_sequences","inputs","crash_points"], "every cut position and every read at which a reader can fail, for every kind of stream",
 "No test truncates a stream or injects a reader fault.",
 ["src/decoder.rs","src/huffman.rs","src/parser.rs","src/lib.rs"],
 [("read_exact based primitives","src/lib.rs read_u8, read_u16_from_be"),("error propagation","src/error.rs From<io::Error>"),("marker search after a scan","src/decoder.rs decode_scan")],
 ["Decoder::decode","Decoder::read_info"])

prop("P10", "Only the bytes matter, and exactly the image's bytes are consumed",
 "Results do not depend on how the reader chops the stream into reads. Fill bytes before markers and stray non-marker bytes between segments change nothing, and restart markers left over after a scan's data are skipped. A successful decode consumes the stream up to and including the end-of-image marker and nothing beyond it, and a successful read_info consumes it up to the end of the frame header.",
 ["inputs","fault_sequences"], "all read-size schedules, all placements of fill and stray bytes, all data following the image",
 "Tests read from files and buffers in one way and never look at the reader afterwards.",
 ["src/decoder.rs","src/huffman.rs","src/parser.rs"],
 [("read_marker resynchronisation","src/decoder.rs read_marker"),("marker-stopping bit reader","src/huffman.rs read_bits, take_marker")],
 ["Decoder::decode","the reader's position after a call"])

prop("P11", "Embedded Exif, XMP and ICC data are returned exactly",
 "After decode succeeds, exif_data and xmp_data return byte for byte the payload of the last such segment, or None if there is none. icc_profile returns the concatenation of the ICC segments in sequence-number order, whatever their order in the stream, if the sequence numbers are exactly 1..n and every segment states the count n (n up to 255), and None otherwise; segments of the same marker types with other signatures, or too short, are ignored.",
 ["inputs"], "all sequences of application segments, payloads, chunk orders, counts and numbers",
 "Six ICC files and one Exif/XMP file sample a handful of chunk layouts; many chunks, mixed signatures and boundary lengths are absent.",
 ["src/parser.rs","src/decoder.rs"],
 [("application segment recognition","src/parser.rs parse_app"),("profile assembly","src/decoder.rs icc_profile")],
 ["Decoder::exif_data","Decoder::xmp_data","Decoder::icc_profile"])

prop("P12", "Reading info first, or again, never changes what decode returns",
 "read_info and scale may be called any number of times, in any order, before decode: read_info is idempotent, stops right after the frame header, and leaves decode returning the same result as on a fresh decoder; info() is None before a header has been read, afterwards reports the same image, and only a scale call changes it. Setting the colour transform or buffer limit at any time before decode has the same effect as setting it first.",
 ["histories","inputs"], "all sequences of API calls ending in decode, over all streams",
 "One test checks one read_info-then-decode sequence on one file.",
 ["src/decoder.rs"],
 [("early return and resumption","src/decoder.rs decode_internal"),("frame state","src/decoder.rs Decoder.frame")],
 ["Decoder::read_info","Decoder::scale","Decoder::info","Decoder::decode"])

prop("P13", "Scaling picks the smallest sufficient factor and decodes at that size",
 "scale(w,h) selects the smallest of 1/8, 1/4, 1/2, 1 whose scaled size (rounded up) reaches the request in at least one axis, or 1 if none does (always 1 for lossless images), returns that size, and info and decode then use it. Each sample of a DCT image decoded at factor N/8 is the N-point inverse DCT of the lowest N x N coefficients of its block, to within rounding; later scale calls replace earlier ones.",
 ["inputs","histories"], "all image sizes, requests, samplings, coding processes and repeated calls",
 "One image at four sizes plus a few pairs for the factor chooser are tested.",
 ["src/idct.rs","src/decoder.rs","src/parser.rs","src/upsampler.rs"],
 [("factor choice","src/idct.rs choose_idct_size"),("size recomputation","src/parser.rs FrameInfo::update_idct_size"),("reduced IDCTs","src/idct.rs")],
 ["Decoder::scale","Decoder::decode"])

prop("P14", "Subsampled components are upsampled to full size at the right positions",
 "For every combination of sampling factors 1..4 whose ratios to the maximum are integers, each pixel combines the component samples that cover its position: identical for ratio 1, triangle-filtered for ratio 2 in either or both directions as libjpeg does (edges replicated), nearest sample otherwise. All other combinations are refused as non-integer subsampling, for every image size and scale, except in an axis where the image is a single pixel wide or high.",
 ["inputs","configurations"], "all sampling-factor combinations, image sizes including 1-pixel and odd ones, and scales",
 "References cover 4:4:4, 4:2:0, 4:2:2 and a few more at sizes up to 33; the edge rules and generic ratios have no test.",
 ["src/upsampler.rs","src/parser.rs","src/worker/mod.rs"],
 [("upsampler choice","src/upsampler.rs choose_upsampler"),("filters","src/upsampler.rs upsample_row"),("component geometry","src/parser.rs update_component_sizes")],
 ["Decoder::decode"])

prop("P15", "The colour transform is chosen and applied as documented",
 "For DCT images of several components, an explicitly set colour transform always wins; otherwise three-component images follow the component identifiers, then the JFIF and Adobe markers, then default to YCbCr, and four-component images follow the Adobe marker or default to CMYK. YCbCr and YCCK convert by the BT.601 equations to within rounding, CMYK-type output is inverted, RGB and None pass samples through, and a transform that does not fit the component count makes decode fail with an error.",
 ["inputs","configurations","histories"], "all identifier triples, marker combinations and orders, overrides, component counts and sample values",
 "A few colour files cover YCbCr, RGB and one YCCK/CMYK; overrides and conflicting markers are never tested.",
 ["src/decoder.rs","src/parser.rs","src/arch/ssse3.rs"],
 [("choice","src/decoder.rs determine_color_transform"),("conversion functions","src/decoder.rs choose_color_convert_func, color_convert_line_*"),("vector conversion","src/arch/ssse3.rs color_convert_line_ycbcr")],
 ["Decoder::decode","Decoder::set_color_transform"])

prop("P16", "Lossless images are reconstructed exactly",
 "For every well-formed Huffman-coded lossless stream with components sampled 1x1, with predictor 1 to 7, precision 2 to 16 bits, any point transform below the precision, any restart interval of whole lines, and components interleaved or in separate scans, decode returns exactly the encoded samples, in bytes up to 8 bits and native-endian 16-bit words above.",
 ["inputs"], "all sample arrays, predictors, precisions, point transforms, restart intervals and scan groupings",
 "Eleven grayscale files, one per predictor at most; no colour, no restarts, no point transform, no precision other than 8, 12 and 16.",
 ["src/decoder/lossless.rs","src/decoder.rs","src/parser.rs"],
 [("prediction","src/decoder/lossless.rs predict, decode_scan_lossless"),("assembly","src/decoder/lossless.rs compute_image_lossless, convert_to_u8")],
 ["Decoder::decode"])

prop("P17", "Threading never changes the result and never deadlocks",
 "decode returns the same bytes, or the same kind of error, whether work runs inline, on per-component threads or on a thread pool of any size; from inside or outside a pool, and with other decoders running at the same time. No interleaving of workers loses, duplicates, reorders or mixes component rows, deadlocks, or leaves worker threads running once the call has returned or its decoder is gone.",
 ["schedules","configurations","inputs"], "all interleavings of decoder and workers, all pool sizes, all images large enough to use them",
 "Four rayon tests decode one file each in a 1- or 2-thread pool and look at no pixels; the per-component thread worker is only run by file comparison.",
 ["src/worker/mod.rs","src/worker/multithreaded.rs","src/worker/rayon.rs","src/worker/immediate.rs","src/decoder.rs"],
 [("worker protocol start/append/result","src/worker/mod.rs trait Worker"),("message channel per component","src/worker/multithreaded.rs"),("disjoint row slices","src/worker/rayon.rs append_rows")],
 ["Decoder::decode under each feature set and pool"], hook="events of the worker protocol and schedule points (cfg jpeg_verif)")

prop("P18", "The decoding buffer limit is enforced exactly",
 "With a maximum decoding buffer size set, decode succeeds only if the bytes it would return do not exceed the limit and fails with a format error otherwise; a limit of at least that size changes nothing, whatever the coding process, component count, precision and scale. Without a limit set no image is refused for its size.",
 ["inputs","histories"], "all limits (in particular size-1, size, size+1) against all image shapes",
 "The setter has no test.",
 ["src/decoder.rs"],
 [("limit check","src/decoder.rs decode_planes")],
 ["Decoder::set_max_decoding_buffer_size","Decoder::decode"])

prop("P19", "All feature configurations and vector code agree with the portable result",
 "For every image whose coefficients stay in the range valid 8-bit images produce, the output with platform-specific vector code enabled differs from the portable output by at most a small rounding tolerance per sample at every width and alignment, and all feature configurations otherwise return the same result, info, metadata and error kind. Repeating a decode gives identical bytes.",
 ["inputs","configurations"], "all images, widths and feature sets",
 "Each configuration is compared to PNGs with a tolerance on the same few files; no run compares configurations with each other.",
 ["src/arch/ssse3.rs","src/arch/mod.rs","src/idct.rs","src/decoder.rs"],
 [("vector IDCT","src/arch/ssse3.rs dequantize_and_idct_block_8x8"),("vector colour conversion with scalar tail","src/arch/ssse3.rs color_convert_line_ycbcr")],
 ["Decoder::decode in each build"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties", max(len(p["title"]) for p in P))
