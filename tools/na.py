NA = {
    "D02": "Termination needs a ranking argument for every loop, over reader progress and the lengths of LZW parent "
           "chains. The abstract domain proves invariants of states, not decrease along unbounded runs; a syntactic rule "
           "(every cycle calls an iterator or the reader) would alarm on equivalent loops with an index and would not "
           "notice a read which no longer consumes. The bounded part is covered: D10 and D11 decide how each read is "
           "used, and D16 that playback ends.",
    "D18": "Needs an invariant over every element of the code table (each entry's parent is an earlier entry and its "
           "last byte is below 2^m). Facts about all elements of a sequence proved the code of the current tree, but "
           "two of five equivalent rewritings of the decompressor's loops were then reported as violations, so the "
           "verdict would depend on how a loop is written. What callers rely on is decided: the code size handed over "
           "(D01, E06) and the handling of its errors (D08).",
    "E08": "A functional inverse of two stateful loops: the compressor's tree and the decompressor's table must agree "
           "code by code for every image. This relates two runs over unbounded data structures and has no static "
           "argument in reach short of a proof assistant. The framing, code size and splitting around it are decided "
           "by E06 and D08.",
    "B01": "Quantifies over files of the file system and formatted terminal output. The command's functions are "
           "private to a binary crate, and what it prints passes through termcolor and std::fmt machinery (function "
           "pointers in argument arrays, trait objects), for which any model would restate the property rather than "
           "decide it. The frames it lists come from the library's iterators, decided by D12-D14.",
}
