#!/usr/bin/env python3
"""Writes properties.jsonl"""
import json, os

D = "gift/src/decode.rs"
E = "gift/src/encode.rs"
B = "gift/src/block.rs"
L = "gift/src/lzw.rs"
PV = "gift/src/private.rs"
ER = "gift/src/error.rs"
BIN = "gift-bin/src/main.rs"

ps = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    ps.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a,
    })


p("D01", "Decoding never panics",
  "Creating a block, frame or step iterator (looping or not) over any reader and calling next on it any number of times, with any maximum image size, never panics: it only returns items, errors or None. This covers malformed headers, descriptors, code sizes, sub-blocks, color indices, frame positions and screen sizes; the expansion of LZW codes itself, running out of memory and panics inside the reader are excluded.",
  ["inputs", "fault_sequences", "configurations"],
  "Every byte stream, every way the reader splits or fails its reads, every maximum image size.",
  "The tests decode a handful of well-formed files from memory slices; the panicking constructs (indexing, arithmetic, unwrap, assertions) depend on input values no finite set of files covers.",
  [D, L, B, PV],
  [("block parsing and sub-block buffer slicing", D), ("LZW code size handed to the decompressor", D),
   ("raster creation and frame compositing", D), ("color table construction assertions", B)],
  ["return of Iterator::next for the block, frame and step iterators"])

p("D02", "Decoding always makes progress and terminates",
  "Every call of next on a block, frame or step iterator returns after finitely many reader calls, provided the reader reports only finitely many interruptions in a row: each repetition inside the decoder either consumes at least one byte of input or brings a bounded computation closer to its end. No input makes the decoder spin without reading.",
  ["inputs", "fault_sequences"],
  "Every byte stream and read pattern in which the reader does not interrupt forever.",
  "A test that does not hang says nothing about other inputs; the loops over input, LZW parent chains and looping playback depend on data.",
  [D, L],
  [("loop filling a buffer from the reader", D), ("sub-block loop", D), ("LZW code and parent chain loops", L), ("frame and preamble block loops", D)],
  ["loops reachable from Iterator::next"])

p("D03", "Iteration stops after an error or the trailer",
  "The call of next on a block iterator that follows a returned error or trailer block returns None. The call of next on a frame iterator that follows a returned error returns None, and a step iterator that has returned an error (looping or not) returns None on every later call.",
  ["inputs", "histories", "fault_sequences"],
  "Every input and every point of the iteration at which an error or the trailer is returned.",
  "Existing tests look at one truncated file per iterator; errors can arise at every block, sub-block, LZW code and frame.",
  [D],
  [("done flags of the three iterators", D)],
  ["sequence of values returned by next"])

p("D04", "Images and screens larger than the limit are rejected",
  "A decoder with a maximum image size reports the too-large error for exactly those image descriptors whose width times height exceeds the maximum, and then yields neither that descriptor nor its data; with no maximum none is rejected. A step decoder also reports the too-large error instead of creating a screen larger than the maximum, and the default maximum is 2^25.",
  ["inputs", "configurations"],
  "Every pair of dimensions (16 bits each) and every maximum, including none.",
  "No test sets a maximum or decodes an oversized image; the boundary is a relation between three integers.",
  [D, PV],
  [("size comparison after parsing an image descriptor", D), ("screen size comparison before creating the raster", D), ("default maximum", PV)],
  ["first item returned for the descriptor"])

p("D05", "Only GIF87a and GIF89a headers are accepted",
  "The first item of a block iterator is a header block with the three version bytes of the input exactly when the first six bytes are GIF87a or GIF89a. Otherwise, if six bytes are available, it is the malformed-header error when the first three bytes are not GIF, and else the unsupported-version error carrying exactly the three version bytes.",
  ["inputs", "fault_sequences"],
  "All 2^48 six-byte prefixes, delivered in any number of reads.",
  "Tests decode files with a valid 89a header only.",
  [D],
  [("header parser", D)],
  ["first item of the block iterator"])

p("D06", "Descriptor fields decode at their GIF byte positions",
  "Logical screen descriptors, image descriptors and graphic control extensions returned by the block iterator hold exactly the values of their fixed positions in the input: 16-bit fields are little-endian, flag and index bytes are unchanged.",
  ["inputs", "histories"],
  "Every byte value at every position, wherever in the stream the block appears.",
  "Test files use small values whose high bytes are zero, so swapped or dropped bytes in most fields go unnoticed.",
  [D, B],
  [("logical screen, image descriptor and graphic control parsers", D), ("field accessors", B)],
  ["accessors of the returned blocks"])

p("D07", "Color tables are read exactly when and as announced",
  "A global (local) color table block follows a screen (image) descriptor exactly when the descriptor's table-present flag is set. It holds exactly 3 * 2^(n+1) bytes, n being the low three flag bits, equal to the input bytes following the descriptor.",
  ["inputs", "histories"],
  "All flag bytes and all table contents.",
  "Test files have three flag combinations; there are 256 per descriptor.",
  [D, B],
  [("expectation of the next block", D), ("table size computation", B)],
  ["block following the descriptor"])

p("D08", "The sequence of block kinds follows the GIF grammar",
  "The block iterator yields a header, a screen descriptor, an optional global table, and then blocks selected by the next input byte: 0x2C an image descriptor followed by an optional local table and image data, 0x21 an extension of the kind given by the next byte (0x01 plain text, 0xF9 graphic control, 0xFE comment, 0xFF application, any other unknown), 0x3B the trailer. Any other byte yields the invalid-block-code error.",
  ["inputs", "histories"],
  "Every byte stream and every position in it.",
  "Tests see four extension kinds in a few orders; the grammar has unbounded histories and 256 choices at each point.",
  [D, B],
  [("expected-next state", D), ("introducer and extension label tables", B)],
  ["kinds of the blocks returned"])

p("D09", "Extension sub-blocks are reassembled unchanged",
  "A plain text, comment, application or unknown extension block holds one entry for each non-empty sub-block of the input, in order and with equal bytes, up to the first zero length byte; an unknown block also records its label. A graphic control extension with a sub-block whose length is not four is reported as malformed.",
  ["inputs", "histories"],
  "Every number of sub-blocks, every length 1..255 and every content.",
  "Tests contain at most two short sub-blocks per extension.",
  [D, B],
  [("sub-block loop", D), ("per-block sub-block parsers", D)],
  ["accessors of the returned extension blocks"])

p("D10", "Truncation and reader errors are reported, interruptions retried",
  "If the input ends inside a block the block iterator returns the unexpected-end error, and if the reader fails with an error other than an interruption it returns an I/O error wrapping exactly that error; neither is ever turned into a block. An interrupted read is retried without losing or repeating bytes.",
  ["inputs", "fault_sequences"],
  "Every cut position, every position and kind of reader failure, every splitting of reads.",
  "Tests read from slices, which never fail, never interrupt and never return short reads.",
  [D],
  [("loop filling a buffer from the reader", D), ("error conversion", ER)],
  ["item returned after the failing read"])

p("D11", "The decoder consumes exactly the bytes of the blocks it returns",
  "When the block iterator has returned a block, it has taken from the reader exactly the bytes of the blocks returned so far: no byte is skipped, repeated or read ahead. In particular after the trailer the reader stands at the first byte after it.",
  ["inputs", "histories", "fault_sequences"],
  "Every byte stream and every splitting of reads.",
  "Tests never look at the reader position.",
  [D],
  [("block sizes", B), ("buffer filling", D)],
  ["reader position after each item"])

p("D12", "Decoded image data has exactly width times height indices",
  "An image data block returned by the block iterator holds exactly width times height (of its image descriptor) bytes. Image data that decompresses to fewer bytes is reported as incomplete, never padded or returned short.",
  ["inputs", "histories"],
  "Every LZW stream, including ones that end early, are cut, or produce too much data.",
  "Tests decode complete images only.",
  [D, L],
  [("image completion check", D)],
  ["data of the returned image data block"])

p("D13", "Frames are assembled from their own blocks",
  "Each frame returned by the frame iterator holds exactly the image descriptor, the optional local color table and the image data of one image of the block sequence, in order, none skipped or repeated, together with the graphic control block that precedes it with no other image or plain text in between (or none). A graphic control block following another one with no image or plain text in between is reported as a sequence error.",
  ["inputs", "histories"],
  "Every sequence of blocks a stream can contain.",
  "Tests have one or two frames in the standard order.",
  [D],
  [("frame assembly from blocks", D)],
  ["fields of the returned frame"])

p("D14", "The preamble holds the blocks before the first frame",
  "Calling the preamble function first returns the header, screen descriptor, optional global table, the last looping application extension and all comments (in order) which precede the first graphic control extension or image descriptor of the stream. The blocks of the first frame are not lost: the first frame returned afterwards has its own graphic control and image descriptor.",
  ["inputs", "histories"],
  "Every block sequence before the first frame.",
  "One test file is used; order and number of extensions vary without bound.",
  [D],
  [("preamble collection", D)],
  ["fields of the returned preamble and first frame"])

p("D15", "Steps composite frames onto the screen per pixel",
  "For a non-interlaced frame lying inside the screen, the raster of the step has at each pixel of the frame the opaque color of that pixel's index in the local table (else the global one), except where the index is the transparent color; those and all pixels outside keep their earlier values. The next step starts from that raster, from the raster before the frame if its disposal is previous, or with the frame's region cleared if it is background; a frame outside the screen, without table, or with an index beyond the table gives the corresponding error.",
  ["inputs", "histories"],
  "Every frame geometry, palette, index data, transparency and disposal sequence.",
  "Tests look at rasters of two tiny files without transparency or disposal.",
  [D],
  [("frame compositing", D), ("disposal handling", D)],
  ["pixels of the step raster"])

p("D16", "Looping playback repeats all steps the announced number of times",
  "Iterating a decoder yields the same steps as the non-looping step iterator, in order, followed by its error if it ends with one. Without an error, the whole sequence is repeated as many further times as the loop count announces, forever if it is zero, and not at all if there is no looping extension before the first frame.",
  ["inputs", "histories", "configurations"],
  "Every number of steps and every loop count 0..65535.",
  "Tests play one single-step file without loop count.",
  [D],
  [("looping step iterator", D)],
  ["sequence of steps returned by next"])

p("D17", "Steps carry the delay and transparent color of their frame",
  "The delay time and transparent color of a decoded step are those of the graphic control block of its frame, where a delay of zero may be reported as none; without such a block the step has no transparent color and no delay.",
  ["inputs"],
  "All graphic control contents.",
  "Tests do not look at the metadata of decoded steps.",
  [D, PV],
  [("step creation from frame", D), ("step metadata setters", PV)],
  ["accessors of the returned step"])

p("D18", "Corrupt LZW data never yields out-of-range color indices",
  "Every byte of a returned image data block is below 2^m, m being the minimum code size of the data (clamped to 2..8). An LZW stream using a code that has not been defined yet is reported as invalid LZW data.",
  ["inputs"],
  "Every compressed byte stream and every minimum code size.",
  "Tests decompress three valid streams.",
  [L],
  [("decompressor code table", L)],
  ["bytes of the returned image data block"])

p("E01", "Blocks are written in the GIF byte layout",
  "Encoding a header, logical screen descriptor, graphic control, image descriptor or trailer block, or a color table, writes exactly its GIF byte representation: signature bytes, 16-bit fields little-endian, flags and index bytes unchanged, table bytes verbatim.",
  ["inputs"],
  "Every field value and table content.",
  "Tests compare the output of three tiny images, whose fields are nearly all zero.",
  [E, B],
  [("block formatters", E)],
  ["bytes written to the writer"])

p("E02", "Extension data is written as valid sub-blocks",
  "Encoding a plain text, comment, application or unknown extension writes the introducer, its label, and then each of its data entries as a length byte (1..255) followed by exactly the entry's bytes, in order, ended by a single zero byte.",
  ["inputs"],
  "Every number, length and content of data entries accepted by the block types.",
  "No test encodes a plain text, comment or unknown extension.",
  [E, B],
  [("extension formatters", E), ("entry length assertions", B)],
  ["bytes written to the writer"])

p("E03", "Write errors are reported and nothing is written after one",
  "If the writer fails while a block, frame, preamble, trailer or step is encoded, the call returns an I/O error wrapping that error and makes no further write in that call. Short and interrupted writes are continued without losing, repeating or reordering bytes, and success is returned only if all bytes were accepted.",
  ["fault_sequences", "inputs"],
  "Every failing write call, every pattern of short or interrupted writes, every block.",
  "Tests write to vectors, which never fail or write short.",
  [E],
  [("write_all calls and error propagation", E)],
  ["result of encode calls, calls received by the writer"])

p("E04", "Frame encoder enforces preamble, frames, trailer order",
  "On a frame encoder, frames and the trailer are accepted only after the preamble has been written and before the trailer has been written; a second preamble, a frame or trailer in the wrong order gives the sequence error and writes nothing. Accepted calls write their blocks in GIF order: header, screen descriptor, global table, loop extension, comments; graphic control, image descriptor, local table, image data; trailer.",
  ["histories", "inputs"],
  "Every sequence of calls and every combination of optional parts.",
  "Tests only use the step encoder with one step.",
  [E],
  [("preamble and trailer flags", E)],
  ["results and bytes written by a call sequence"])

p("E05", "The step encoder writes one consistent GIF file",
  "Encoding indexed steps writes one preamble with the size of the first raster, its color table (or the one set explicitly), and the loop count set; then one frame per step, with a local table exactly when the step's palette table differs from the global one; and the trailer exactly once when the encoder is dropped after a step. A step whose raster has a different size gives the dimension error and writes no frame.",
  ["histories", "inputs", "configurations"],
  "Every sequence of steps, palettes of any length, raster sizes and settings.",
  "Tests encode a single step with a matching palette.",
  [E],
  [("step encoding", E), ("color table creation", E), ("drop of the step encoder", E)],
  ["bytes written to the writer"])

p("E06", "Image data is written with a fitting code size and framing",
  "Encoding image data writes a minimum code size between 2 and 8 large enough that every index is below 2^size, followed by the compressed bytes split into sub-blocks of 1..255 bytes with correct length bytes, all but the last full, ended by a zero byte.",
  ["inputs"],
  "Every image size and content, including index 255 and compressed data of any length.",
  "Test images have indices below 5 and compress to a single sub-block of at most 5 bytes.",
  [E, L],
  [("minimum code size computation", E), ("sub-block splitting", E)],
  ["bytes written to the writer"])

p("E07", "Encoding indexed images never panics",
  "Encoding any block, frame, preamble or indexed step accepted by the public constructors never panics: errors are returned. This includes empty images, all index values, palettes of any length and rasters larger than a GIF can hold; the LZW compression of valid indices itself, true-color steps and running out of memory are excluded.",
  ["inputs", "histories", "fault_sequences"],
  "Every value of the public block and step types, and every writer behavior.",
  "Tests encode three small images.",
  [E, L, B],
  [("formatters and their length conversions", E), ("LZW code size handed to the compressor", E), ("raster and palette conversion", E)],
  ["return of encode calls"])

p("E08", "Encoded image data decodes to the same indices",
  "Decoding the image data written for an image with this crate's decoder yields the indices of the image.",
  ["inputs"],
  "Every image content and size.",
  "Tests compress three tiny images.",
  [L, E],
  [("compressor and decompressor tables", L)],
  ["decoded image data"])

p("A01", "Flag accessors read and change exactly their own bits",
  "In image descriptors and graphic controls, each setter of a packed flag makes the matching getter return the value set (disposal methods compared by their three-bit code) and leaves every other field and every other bit of the flags byte unchanged, for every previous flags byte. Interlace, disposal method, user input, transparent color flag and color resolution occupy their GIF bit positions, and the plain setters of screen descriptors, image descriptors and graphic controls store exactly the value given.",
  ["inputs", "histories"],
  "All 256 flag bytes, all field values, all orders of setter calls.",
  "One test walks through a few settings from the default.",
  [B],
  [("packed field masks", B)],
  ["getters after setters"])

p("A02", "Color table configuration survives encoding in flags",
  "A color table configuration has the smallest power of two of at least the requested number of entries, between 2 and 256 (none if absent). Storing it in a screen or image descriptor and reading it back gives the same existence, ordering and length, and an image descriptor keeps its interlace bit.",
  ["inputs"],
  "All table lengths 0..65535, existence, ordering and previous flags.",
  "Tests check the size bits of eight lengths and never read a configuration back.",
  [B],
  [("table length rounding", B), ("flag packing", B)],
  ["color_table_config of the descriptors"])

p("A03", "Loop counts are recognised exactly and read back unchanged",
  "An application block created with a loop count returns that loop count. An application block returns a loop count only if it consists of exactly two entries, the first being NETSCAPE2.0 or ANIMEXTS1.0 and the second three bytes long starting with 1, and then it is the little-endian value of the remaining two bytes.",
  ["inputs"],
  "All 65536 loop counts and all entry contents.",
  "Tests use loop counts 0 and 4 only.",
  [B],
  [("loop count encoding and recognition", B)],
  ["loop_count of application blocks"])

p("A04", "Step settings do not disturb each other",
  "Setting the disposal method, transparent color or delay of a step makes the step (and the graphic control written for it) carry that value and leaves the other two as they were, in any order of calls. A step with only default settings is written without a graphic control block.",
  ["histories", "inputs"],
  "All orders of setter calls and all values.",
  "No test sets step metadata.",
  [PV, B],
  [("step builder functions", PV)],
  ["step accessors and encoded bytes"])

p("A05", "Errors keep their cause",
  "An error made from an I/O error or an integer conversion error reports that error as its source and shows the same text; all other errors have no source and show the name of their variant.",
  ["inputs"],
  "Every error value.",
  "No test looks at source or text of errors.",
  [ER],
  [("Display, source and From of the error type", ER)],
  ["Display and source of Error"])

p("B01", "The gift command reports failures and lists every frame",
  "Given files that are read without error, the gift command prints one line per frame of each file, in order; if a file cannot be opened or decoded, or writing fails, the command ends with an error after printing no frame lines for that file.",
  ["inputs", "fault_sequences"],
  "Every list of files and every failure position.",
  "The command has no tests.",
  [BIN],
  [("file and frame listing loops", BIN)],
  ["output and exit status"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in ps:
        f.write(json.dumps(x) + "\n")
print(len(ps), "properties")
