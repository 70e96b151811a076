"""Which specification roots decide which property"""

LEVEL = "other"

PROPS = {}


def prop(id, rule, roots, **kw):
    PROPS[id] = dict(rule=rule, roots=roots.split(), **kw)


prop("A01", "Every flag accessor equals the documented bits of the packed byte and every setter changes only its own bits, "
     "for all field values.",
     "r_control_fields r_control_disposal r_control_input r_control_color r_control_delay r_image_fields r_screen_fields",
     floor=46)
prop("A02", "A color table configuration stored in a screen or image descriptor reads back equal, for all table lengths.",
     "r_config r_config_screen r_config_image r_config_flags", floor=25)
prop("A03", "Loop count of an application extension is the little-endian value of the looping sub-block, else none.",
     "r_loop_count r_loop_count_any", floor=10)
prop("E01", "Bytes accepted by the writer for every fixed-layout block equal the GIF layout of its fields.",
     "r_enc_header r_enc_screen r_enc_image r_enc_control r_enc_trailer r_enc_global r_enc_local",
     floor=7)
EXT = "r_enc_comment r_enc_text r_enc_app r_enc_unknown"
prop("E02", "Bytes accepted by the writer for every extension equal its introducer, label, and each entry with its length, ended "
     "by a zero byte.", EXT, floor=12)
prop("E03", "After a failed write nothing is written, and the call reports the writer's error; success implies no failed write.",
     "r_enc_header r_enc_screen r_enc_image r_enc_control r_enc_trailer r_enc_global r_enc_local r_enc_data r_enc_frames " + EXT,
     floor=26)
prop("E04", "For every sequence of calls, a call in order writes exactly its blocks and one out of order writes nothing and "
     "is refused.", "r_enc_frames", floor=7)
prop("E06", "The code size written fits every index, and the compressed bytes are written as sub-blocks.", "r_enc_data", floor=6)
prop("A05", "Source and text of an error are those of its cause, and other errors show the name of their variant.",
     "r_error_from r_error_source r_error_text", floor=6)

BLOCKS = "r_blocks r_blocks_max"
OFF = "r_steps_start r_steps_wide r_steps_high r_steps_thin r_steps_flat r_steps_no_table"
BESIDE = "r_steps_left r_steps_right r_steps_above r_steps_below"
WITHIN = ("r_steps_clear r_steps_plain_full r_steps_keep_full r_steps_plain_global r_steps_plain_local r_steps_plain_both r_steps_keep_global r_steps_keep_local "
          "r_steps_background r_steps_previous")


def blocks(id, rule, roots=BLOCKS, **kw):
    prop(id, rule + "  Decided for every input, every chunking of reads, interruptions, reader errors and end of input at any call.",
         roots, **kw)


blocks("D03", "After an item which is an error or the trailer the next call returns None.",
       BLOCKS + " r_frames r_preamble " + OFF, floor=14)
blocks("D04", "An image descriptor is returned iff its width * height is within the limit, else the too-large error.",
       BLOCKS + " r_blocks_default r_steps_start r_steps_clear", floor=8)
blocks("D05", "The first item is decided by the first six bytes as specified.", floor=6)
blocks("D06", "Fields of returned descriptors equal the input bytes at their positions.", floor=13)
blocks("D07", "A color table is returned iff announced, with the announced bytes.", floor=7)
blocks("D08", "The kind of each returned block or error is the one which the grammar gives for the bytes read.", floor=14)
blocks("D09", "Sub-blocks of a returned extension equal those of the input.", floor=10)
blocks("D10", "End of input and reader errors are returned as such and only then.", floor=6)
blocks("D11", "Bytes read when a block is returned are exactly those up to its end.", floor=3)
blocks("D12", "A returned image data block has width * height bytes, else an error is returned.", floor=4)
prop("D13", "A frame is returned iff the blocks read since the last one contain an image, with exactly its blocks; a second "
     "graphic control is a sequence error.  Decided for every input (with full reads; D10 and D11 cover partial ones).",
     "r_frames", floor=11)
prop("D14", "The preamble returned equals the collected blocks before the first graphic control or image descriptor, and the "
     "first frame has its own blocks.  Decided for every input.",
     "r_preamble", floor=11)
prop("D15", "The pixel of a step at any position has the value which the frame, its table and the earlier raster give, and "
     "what is left of it for the next step is what the disposal says; frames which cannot be shown give their error.  Decided "
     "for any frame on any earlier raster; rasters are represented by their size and one arbitrary pixel.",
     " ".join([OFF, BESIDE, WITHIN]), floor=110)
prop("D17", "Delay and transparent color of a step equal those of the graphic control of its frame.", " ".join([BESIDE, WITHIN]), floor=32)

PLAY = ("r_play_0 r_play_1 r_play_2 r_play_3 r_play_8 r_play_0_error r_play_1_error r_play_2_error r_play_7_error r_play_once "
        "r_play_once_error")
prop("D16", "A looping iterator returns the steps of a list of frames in order, then its error, or the whole list again for each "
     "announced repetition.  Decided for lists of up to eight frames with any colors and positive delays, any loop count and any "
     "number of calls.", PLAY, floor=34)

TABLES = "r_encst_0 r_encst_1 r_encst_2 r_encst_3 r_encst_4 r_encst_set r_encst_set3 r_encst_set31 r_encst_set14 r_encst_none"
LENGTHS = "r_encst_len_1 r_encst_len_2 r_encst_len_3 r_encst_len_4 r_encst_len_5 r_encst_len_6 r_encst_len_7"
SETTINGS = " ".join("r_settings_" + x for x in (
    "0120 0121 0210 0212 1020 1021 1201 1202 2010 2012 2101 2102").split())
prop("E05", "For every sequence of indexed steps the frame encoder is given one preamble with the size, table and loop count due, "
     "then one frame per step with its indices and, iff its table differs, its local table; the trailer follows when dropped.  "
     "Colors are compared for palettes of up to four colors, table lengths for all up to 256.",
     TABLES + " " + LENGTHS, floor=180)
prop("A04", "After any of the setters, in any order and repeated, the getters and the graphic control handed to the frame encoder "
     "have the values set last; without settings other than the defaults there is none.", SETTINGS, floor=70)
prop("D01", "No panic site of the decoder is reachable, for every input, chunking of reads, interruption, reader error and limit "
     "(LZW decompression is replaced by its contract).",
     " ".join([BLOCKS, "r_blocks_default r_frames r_preamble", OFF, BESIDE, WITHIN, PLAY]), floor=0, sites=70)
prop("E07", "No panic site of the block, frame or step encoder is reachable, for all blocks, rasters, palettes and writers "
     "(LZW compression is replaced by its contract).",
     " ".join(["r_enc_header r_enc_screen r_enc_image r_enc_control r_enc_trailer r_enc_global r_enc_local r_enc_data r_enc_frames",
               EXT, TABLES, LENGTHS]), floor=0, sites=90)
