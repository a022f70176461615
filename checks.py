"""What check.py runs for each property, and what MANIFEST.json says about it."""
MC = "model_checking"
FE = "fault_enumeration"

TRUST = "Trusts the harness's own reference model (written from the standard, independent of the library) and the compiler; holds for the stated bounds only."


def c(src, technique, note, bounds, **kw):
    d = {"src": src, "technique": technique, "note": note + " " + TRUST, "bounds": bounds, "level": MC}
    d.update(kw)
    return d


NOT_APPLICABLE = {}

CHECKS = {
    "P09": c("core.cpp", "exhaustive enumeration of input lists on the real table builders against a decompression model",
             "Every list in the bounds is compressed by the real code and expanded again from the serialised bytes.",
             {"quick": "lists up to 8 over 4 values, 14 over 2 values; runs around every power of two to 2^21; ascending offset lists up to 5 over 11 values",
              "thorough": "lists up to 9 over 4 values, 16 over 2; runs to 2^24; offset lists up to 6"}),
    "P10": c("core.cpp", "exhaustive enumeration of all box trees up to a size on the real layout pass against a layout model",
             "Every ordered tree in the bounds, with field sizes around the 32-bit limit, is laid out twice, elsewhere and back, and written.",
             {"quick": "all ordered trees up to 7 boxes; chains and stars up to 400; every call on boxes of every registered kind that have not been placed", "thorough": "all ordered trees up to 8 boxes"}),
    "P11": c("core.cpp", "exhaustive enumeration of header forms, positions and remaining lengths on the real codec",
             "Every header in the bounds is read at every position, sought from and written back.",
             {"quick": "15 positions x up to 26 and 14 sizes to 2^62 of remaining bytes x boundary size fields", "thorough": "up to 40 remaining bytes"}),
    "P25": c("core.cpp", "exhaustive enumeration of calendar days against a calendar model",
             "Every day of the printable range is printed; beyond it all 64-bit boundary values.",
             {"quick": "every day 1904-2106 at 10 seconds of day; 4 days by the second; 64-bit boundaries", "thorough": "12 days by the second"}),
    "P26": c("core.cpp", "explicit-state exploration of the version/flags state space, model traces replayed on the real box",
             "The reachable state space over the flag alphabet is explored to closure; all operation sequences up to a depth; every registered box kind.",
             {"quick": "full reachable (version, flags) space of 34 operations; all sequences up to 5 of 9 operations; all registered boxes, with and without flags", "thorough": "sequences up to 6"}),
    "P27": c("core.cpp", "exhaustive enumeration of codes and of registration histories against a registry model",
             "All codes over a byte alphabet, all registered codes with all versions, all registration histories up to a depth.",
             {"quick": "16^4 codes; all registered codes; registration histories up to 3 of 36", "thorough": "histories up to 4"}),
    "P01": c("mux.cpp", "exhaustive enumeration of muxing call histories on the real progressive muxer, every file judged by an independent parser",
             "Every history in the bounds is run on the real writer and tracks; the samples found by following the file's own tables are compared with those added.",
             {"quick": "one track: all words up to 6 over {add 0, 1, 3 bytes, end chunk} for 7 codecs; two tracks: all words up to 4 over 5 calls for all 49 codec pairs, up to 6 for 3 pairs; three tracks: all words up to 5 over 6 calls, 343 codec triples; every size to 600, boundary sizes to 2^24+1; all track orders of 4; 100 tracks; 66001 samples",
              "thorough": "one track up to 8, pairs up to 5 and 8, three tracks up to 7, triples of sizes, sizes to 2^27+1, 200003 samples"}),
    "P02": c("mux.cpp", "exhaustive enumeration of muxing call histories on the real faststart muxer, every file judged by an independent parser",
             "As P01, with the faststart writer and its real intermediate file.",
             {"quick": "as P01", "thorough": "as P01"}),
    "P03": c("mux.cpp", "exhaustive enumeration of timestamp histories and of pairs of time parameters on the real muxers against a timing model",
             "The decoding time table, all durations and the edit list of every file are compared with those computed from the history alone.",
             {"quick": "both layouts, 7 codecs: all sequences of up to 3 differences over {0,1,40,2^31-1,2^32-1} x 5 last durations x 6 durations/timescales x chunking; every pair of deviations over 10 time parameters; 64 interleavings for all codec pairs; the media time set once and twice at every point; 70000 samples",
              "thorough": "up to 4 differences, 256 interleavings"}),
    "P04": c("mux.cpp", "exhaustive enumeration of key flag histories on the real muxers against a key list model",
             "The sync sample table and sample groups of every file are compared with the flags given in the history.",
             {"quick": "both layouts: all words up to 7 over {key, non-key, end chunk} for 7 codecs; up to 4 over two tracks for 49 pairs; 66000 samples; roll distances at 16-bit boundaries", "thorough": "words up to 8, two tracks up to 6"}),
    "P05": c("mux.cpp", "exhaustive enumeration of track sets and histories on the real muxers, files judged by a structural parser",
             "Every file is parsed into boxes by size alone; order, presence, counts and leaf sizes are compared with what the standard prescribes.",
             {"quick": "all codec sets up to 3 tracks x 2 layouts x 3 file types x 6 histories; every pair of deviations over parameters that change box sizes; 70000 samples", "thorough": "all codec sets up to 4 tracks"}),
    "P06": c("mux.cpp", "exhaustive pairwise enumeration of declared track and movie parameters on the real muxers against the standard's field layout",
             "Every header field and codec record of every file is compared byte for byte with the one the declared parameters prescribe.",
             {"quick": "both layouts, 7 codecs: every pair of deviations over all declared parameters with boundary values; all codec triples x 6 orders and identifier schemes; identifiers asked for, AV1 configuration units set and getters called at every point of the history; ten parameters at, around and beyond what their field holds, every bit alone, in empty files and beside other tracks", "thorough": "as quick"}),
    "P07": c("mux.cpp", "exhaustive enumeration of files around the 4 GiB limits on the real muxers over sparse files in memory",
             "Histories whose media data or chunk positions lie at every chosen distance from 2^32 are really muxed (intermediate file and output kept sparse), and the files judged by the parser.",
             {"quick": "media data of 2^32 + 7 deltas, 2^33, 2^34 and (simple layout) 2^35; chunks at 2^32 + 13 (faststart) or 6 deltas x up to 5 arrangements of three tracks; oversized samples", "thorough": "18 and 34 deltas, all arrangements in both layouts; media data up to 2^36"}),
    "P08": c("mux.cpp", "exhaustive enumeration of all interleavings of two muxers' calls, and of repeated and equivalent histories, with byte comparison",
             "Each schedule is executed on two real muxers and compared with the bytes each produces alone; repetition is checked under different contents of fresh memory.",
             {"quick": "all 12870 to 48620 interleavings for 6 pairs of muxers; a muxer abandoned after any number of calls at any point of another's life; all words up to 3 over 4 calls for 49 codec pairs x 2 layouts, each 7 times, once with everything logged; media data of up to 3 pieces given straight to the writer", "thorough": "20 pairs; words up to 4"}),
    "P20": c("reader.cpp", "every truncation point of muxed files, read by the real reader",
             "Every cut of the files of histories over all codecs and both layouts.",
             {"quick": "every byte of 142 histories: all codecs alone and in pairs, both layouts; media data of 10 KiB", "thorough": "every byte of 834 histories: all triples, too; media data of 100 KiB"}, level=FE, rule="all crash points: every prefix of every finished file, each exactly once"),
    "P21": c("mux.cpp", "exhaustive fault injection at every operation on the output stream of muxing histories, with byte comparison",
             "Each write, seek and position query of each history fails in turn; a silent completion must have produced the fault-free bytes.",
             {"quick": "every output operation of 20 histories (7 codecs, 4 tracks, none, 1 MiB) x {once, for good, half way} x {flags, exceptions}; stream gone bad between any two calls", "thorough": "118 histories including all codec pairs"},
             level=FE, rule="all single faults: for every output stream operation index of every history, each failure mode once"),
    "P22": c("mux.cpp", "exhaustive fault injection at every operation on the intermediate file, and enumeration of its life on a real directory with decoys",
             "Each create, open, write, seek, read, close and remove of each history fails in turn; the directory is compared before, during and after.",
             {"quick": "every file operation of 25 histories x {once, for good, short, early end}; 5 name patterns x 25 histories, looked at after every step, given up at every point; 5 unusable patterns; vanished files; shared patterns", "thorough": "as quick"},
             level=FE, rule="all single faults: for every intermediate file operation index of every history, each failure mode once"),
    "P12": c("codec.cpp", "exhaustive exploration of the choice tree of every box kind, written by the real code and compared with an independent encoder",
             "Every structure of every box kind; at each, all points up to k deviations of its fields from the default.",
             {"quick": "76 box kinds, every structure (versions, optional fields, list lengths 0 to 3, 256 and 65537), pairs of field deviations over boundary values; every byte value, bit and length of every field of the largest structures", "thorough": "up to four deviations"}),
    "P13": c("codec.cpp", "exhaustive exploration of the choice tree of every box kind, standard data read by the real code and compared field by field",
             "As P12, the data being read by fresh, registered and used instances, at an offset and followed by boxes.",
             {"quick": "as P12; all ordered pairs of structures read into one instance", "thorough": "up to four deviations"}),
    "P14": c("codec.cpp", "exhaustive exploration of descriptor trees with all length forms on the real code against an independent encoder",
             "Every tree shape x optional fields x length form, payload sizes at the limits of the length forms.",
             {"quick": "16 shapes x 8 optional field sets x added or numbered sizes; pairs of deviations over payload sizes up to 16384, and 2^21", "thorough": "up to four deviations"}),
    "P15": c("bitio.cpp", "exhaustive enumeration of call sequences on the real bit writer and reader next to a bit-string model",
             "Every sequence is written, read back whole and read back from every shorter prefix of the data.",
             {"quick": "every type and width at every alignment with boundary values; all pairs of 322 typed fields; all sequences of 24 fields up to 4 calls; all reader histories of 15 operations up to 5 calls", "thorough": "sequences up to 5, histories up to 6 calls"}),
    "P16": c("bitio.cpp", "exhaustive enumeration of data x limits x alignments on the real string, varint, array and byte-order functions against a model",
             "Whatever is read, what follows it is read, too, and has to be what follows.",
             {"quick": "all strings up to 5 over 6 bytes under every limit in bits, at several alignments; all lengths up to 300; all varint encodings up to 6 over 7 bytes; all lengths 1 to 8; byte orders over 6^6 values", "thorough": "strings up to 7, encodings up to 8, 6^8 values"}),
    "P17": c("reader.cpp", "exhaustive enumeration of box trees, dumped by the real reader and compared line by line with what the tree consists of",
             "Every tree up to the stated number of boxes over containers, field-bearing containers, leaves, opaque and unknown boxes, every assignment of header forms.",
             {"quick": "all trees of up to 2 boxes over 125 kinds, 3 over 16, 4 over 8, 5 over 3, 8 over 2 with all header forms (4 and 8 fewer); chains up to 256 levels; 4000 siblings; lists of up to 4 of 6 kinds in every container", "thorough": "all trees of up to 2 boxes over 125 kinds, 3 over 40, 4 over 12, 5 over 5, 6 over 3, 10 over 2; 65537 siblings"}),
    "P18": c("reader.cpp", "exhaustive enumeration of malformed files, read by the real reader under AddressSanitizer with memory accounting; an independent parser decides which of them are well-formed after all",
             "Sequences of headers with hostile sizes, and trees with sizes replaced, cut and corrupted.",
             {"quick": "all sequences of up to 3 of 77 headers and fillers; every size of every tree of up to 4 boxes replaced (pairs for 2 boxes), every cut, every byte of trees of up to 2 boxes; chains of 100000 boxes; counts in 27 box kinds", "thorough": "sequences of 4; pairs of sizes for trees of up to 4 boxes over more kinds"},
             flavour="asan"),
    "P19": c("codec.cpp", "exhaustive enumeration of box data: all strings over a byte alphabet and all single mutations of well-formed data, decoded by the real code under AddressSanitizer with memory accounting",
             "Whatever is decoded is described and written back, too.",
             {"quick": "all strings up to 5 over 5 bytes after every version, flags and selector; every cut, byte and 32-bit count of 80 structures per kind", "thorough": "strings up to 7; pairs of mutations of 400 structures"},
             flavour="asan"),
    "P23": c("h264.cpp", "exhaustive enumeration of byte streams and of unit sequences x start codes x calls on the real scanner, track and writers; the finished file is read by an independent parser",
             "The model finds units by the positions of 00 00 01 instead of scanning.",
             {"quick": "all strings of 3 bytes up to length 10 scanned from every position, up to 9 muxed, of 8 bytes up to 5 after a start code; every unit header in every place; all sequences of up to 3 of 14 units with every choice of start codes and calls; slice sizes to 600 and around 2^12 to 2^24; 260 slices per call; all histories of 4 operations on two tracks", "thorough": "strings up to 13 and 12, of 8 bytes up to 6, all sequences of 4 units, histories of 6 operations"},
             flavour="asan"),
    "P24": c("h264.cpp", "exhaustive enumeration of parameter set histories on the real track and writers; the configuration record of the finished file is read by an independent parser",
             "",
             {"quick": "all histories of up to 4 of 9 units in three divisions over calls; every declared and stored profile, compatibility and level; 1 to 400 repetitions; 0 to 34 sequence and 0 to 260 picture parameter sets; set lengths to 300 and around powers of two up to 131077; all contents of 5 bytes over 4", "thorough": "histories of 6 units, 1200 repetitions, every number of sets, contents of 7 bytes"},
             flavour="asan"),
    "P28": c("reader.cpp", "exhaustive enumeration of files and calls, run through the real command-line tool",
             "Output, exit status and input file of every run are checked.",
             {"quick": "trees of up to 5 boxes, sizes replaced and cuts; cuts of 136 muxed files; all log levels and option forms; missing, unreadable and oddly named files", "thorough": "larger alphabets, every cut"}, cli=True),
    "P29": c("own.cpp", "exhaustive enumeration of histories and single faults, each run repeatedly on the real code under an allocator that counts bytes and notices double frees",
             "After every history everything is destroyed and the memory and descriptors held are compared with those before it.",
             {"quick": "muxers given up after every call, every output and intermediate file operation failing, refused arguments and units; files of up to 3 boxes whole, cut and corrupted; failing inputs; every box kind", "thorough": "all pairs of track kinds, larger alphabets, every cut"}, flavour="asan"),
    "P30": c("codec.cpp", "exhaustive exploration of the choice tree of every box kind, described by the real code; a model looks for every field's value in the text, in order",
             "The form in which a value is written is left to the code.",
             {"quick": "76 box kinds, every structure, pairs of field deviations; every value of every byte of every field of the largest structures", "thorough": "up to four deviations, extended values in all structures"}),
    "P32": c("threads.cpp", "exhaustive enumeration of pairs of library calls in two unordered threads under a happens-before race detector, one schedule standing for all interleavings of its trace",
             "All ordered pairs of programs run on the real library; an access of one that conflicts with one of the other is reported whatever the timing; results are compared with those alone.",
             {"quick": "all ordered pairs of about 320 programs (muxing 7 codecs in both layouts, alone, with another track, with failing output; dumping; bits, strings, times, tables, trees; up to 3 structures of each of 76 box kinds, whole and cut); each program twice in a process where nothing was used before; all pairs of 5 const members on up to 8 structures of each box kind", "thorough": "up to 12 structures of each kind, 40 for const members"}, flavour="tsan"),
    "P33": c("codec.cpp", "exhaustive enumeration of short byte strings and of all single corruptions of well-formed data for every box kind, decoded and written back",
             "Whatever the real decoder accepts is written back and compared with the bytes it consumed, byte for byte.",
             {"quick": "texts without terminator; all strings of up to 6 bytes over 5 values after every selector; up to 80 structures of each of 76 box kinds with every cut, every byte replaced by 9 values, every four bytes by 9 counts, data appended", "thorough": "strings of up to 7 bytes; up to 400 structures, all pairs of replaced bytes"}),
    "P34": c("limits.cpp", "exhaustive enumeration of counts, lengths and profiles on both sides of what each field can hold, written by and read by the real boxes",
             "Whatever fits has to come out byte for byte as an independent encoder writes it and be read back; the rest has to be refused.",
             {"quick": "avcC: 0 to 300 sets in each list (and 65535 to 65568), set lengths 0 to 300 and around powers of two to 2^17, all profiles; vpcC, sidx, esds, iods, mp4a, varints, strings around their limits; every announced descriptor length up to 310 against what follows; sgpd entries with up to 6 offsets; every number of every structure of 76 box kinds with five values beyond its bits", "thorough": "600 sets, lengths to 1100, 20 offsets"}),
    "P35": c("mux.cpp", "exhaustive enumeration of muxing histories with calls that cannot be honoured, on the real muxers, against the file of the same history without them",
             "Each sample's acceptance is predicted from the timestamps alone; the finished file has to be, byte for byte, that of the accepted samples.",
             {"quick": "both layouts, 7 codecs, five durations: every sequence of up to 3 samples over 8 timestamps in 4 forms; two tracks, every sequence of 4 samples over 5 timestamps each; samples after every finishing call; every sequence of up to 3 identifiers over 9, up to 3 more handed out, tracks handed over twice", "thorough": "4 samples"}),
    "P36": c("mux.cpp", "exhaustive enumeration of all sequences of a muxer's calls, in and out of order, on the real muxers, against the file of the documented order",
             "Every word over the calls is executed; wherever the accepted calls make a file, it has to be, byte for byte, the one of the accepted samples muxed in the documented order.",
             {"quick": "all words up to 5 calls and those up to 7 that contain what a file needs: one track, 7 codecs, 6 (progressive) and 7 (faststart) calls; two tracks, 7 and 8 calls, handing over both tracks or one; the same with tracks that have to be refused", "thorough": "words up to 8"}),
    "P37": c("core.cpp", "exhaustive enumeration of all pairs of values of every comparable type on the real operators",
             "Every pair is compared in both directions with all operators; the order has to agree with one ranking of all values.",
             {"quick": "all pairs of 100 stts entries, 1000 stsc entries, 1296 types, 1944 headers, 156 parameter sets, 1620 units, 1275 offset tables of either kind, 100 boxes", "thorough": "256, 4096, 2401, 1944, 781, 1620, 1275 and 100"}),
    "P31": c("codec.cpp", "exhaustive fault injection at every operation on the streams boxes are decoded from and written to and files are dumped from, with comparison of all results",
             "Each operation of each call fails in turn in eight ways; a silent completion must have had the fault-free result.",
             {"quick": "every stream operation of all pairs of bit stream calls, of decoding, encoding and writing up to 150 structures of each of 76 box kinds and of dumping files with them; every operation of input and output of dumping 10 files; x {once, for good} x {refused, thrown, half, on a stream that throws}", "thorough": "up to 1000 structures, longer files"},
             level=FE, rule="all single faults: for every stream operation index of every call, each failure mode once"),
}
