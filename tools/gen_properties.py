#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here because JSONL is unpleasant to edit)."""
import json, os, sys

W = "src/writer/simple_writer.cpp"; F = "src/writer/faststart_writer.cpp"; T = "src/track/track.cpp"
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip(), "meaning": "", "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = [x.strip() for x in observe.split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Progressive files give back every sample",
  "A file muxed in the progressive layout (media data before the movie header) contains, for every track, exactly the samples that were added to it: a parser that follows only the file's own chunk offset, sample-to-chunk and sample size tables recovers the same bytes, in the same order, none lost, added, moved or mixed between tracks. This holds for every codec's track, for any number and order of tracks, for samples of any size including empty ones, and for any placement of chunk ends (a track's open chunk being ended before another track's samples are added).",
  ["histories", "configurations"], "every history of add-sample and end-chunk calls over one to three tracks, up to the stated depth, for every combination of codecs",
  "No existing test runs a writer at all; the tables are only checked on hand-picked lists, while correctness depends on the whole interleaving history of adds and chunk ends.",
  [W, T, "src/box_info.cpp", "src/box/stsz.cpp", "src/box/stsc.cpp", "src/box/stco.cpp"],
  [("chunk bookkeeping", "Track::addMdatData / terminateCurrentChunk / finalize, src/track/track.cpp"), ("media data placement", "SimpleWriter::writeFtypBox / addMdatData / tellCurrentMdatOffset, src/writer/simple_writer.cpp")],
  state="open chunk, list of chunks, list of sample sizes of each track; media data size and stream position of the writer", observe="the finished byte stream")

p("P02", "Faststart files give back every sample",
  "A file muxed in the faststart layout (movie header before the media data) contains, for every track, exactly the samples that were added to it: a parser that follows only the file's own chunk offset, sample-to-chunk and sample size tables recovers the same bytes in the same order. The offsets stay right although the size of the movie header they are stored in is only known once they are, and whatever the number of tracks, samples and chunks, their order and their sizes.",
  ["histories", "configurations"], "every history of add-sample and end-chunk calls over one to three tracks, up to the stated depth, for every combination of codecs, in the faststart layout",
  "No existing test runs the faststart writer; its offsets are shifted after the fact in a loop whose result depends on the whole history.",
  [F, T, "src/box_info.cpp"],
  [("chunk offset relocation", "FaststartWriter::appendTrakAndUdtaBoxInfo, Track::resetChunkOffsets"), ("media data copy", "FaststartWriter::addMdatData / copyMdatData")],
  state="chunk offsets, size of movie header, media data in the intermediate file", observe="the finished byte stream")

p("P03", "Sample timing is preserved",
  "For every track in a muxed file of either layout, the decoding time table gives one duration per sample, in sample order: the difference between the timestamps of consecutive samples and, for the last sample, the declared track duration minus its timestamp, or zero if it begins beyond that. Media, track and movie durations and the edit list's duration are the declared ones in the right timescale, the edit list's media time is the declared or last set one, and none of them is cut to 32 bits when it needs more.",
  ["histories", "configurations"], "every history of timestamps over a small alphabet of gaps (including zero, 1 and gaps close to 32 bits), timescales and declared durations, for every codec, and the media time set at every point",
  "Tests only exercise the run-length helper on four lists; no test looks at what a finished file says about time.",
  [T, W, F, "src/box/stts.cpp", "src/box/mdhd.cpp", "src/box/tkhd.cpp", "src/box/mvhd.cpp", "src/box/elst.cpp"],
  [("duration bookkeeping", "Track::addMdatData / finalize / getDurationInTimescale"), ("edit list", "Track::makeElstBoxInfo")],
  state="previous timestamp and list of durations of each track", observe="stts, mdhd, tkhd, mvhd and elst of the finished file")

p("P04", "Key samples and sample groups are marked exactly",
  "In every muxed file a video track's sync sample table lists exactly the numbers (counted from 1, ascending) of the samples that were added as key samples, and audio tracks carry no sync sample table. Tracks of codecs that need pre-roll carry one roll group, with the codec's roll distance, that covers every sample of the track.",
  ["histories", "configurations"], "every assignment of key flags to every history of adds and chunk ends up to the stated depth, for every codec and both layouts",
  "Nothing in the test suite adds a key sample or looks at a sync sample table produced by a track.",
  [T, "src/track/aac.cpp", "src/track/opus.cpp", "src/track/h264.cpp", "src/track/vpx.cpp", "src/track/av1.cpp", "src/box/stss.cpp", "src/box/sbgp.cpp", "src/box/sgpd.cpp"],
  [("key sample list", "Track::addMdatData, Track::makeStssBoxInfo"), ("roll groups", "OpusTrack/AACTrack::makeSgpdBoxInfo / makeSbgpBoxInfo")],
  state="list of key sample numbers, number of samples", observe="stss, sgpd and sbgp of the finished file")

p("P05", "Muxed files are exactly nested boxes",
  "Every finished file is a gap-free sequence of top-level boxes, in the order file type, (filler,) media data, movie header for the progressive layout and file type, movie header, media data for the faststart layout, with nothing before, between or after them. Every box's size covers exactly its header, its own fields and its children; every declared number of children, entries or samples equals what follows; and the boxes a player needs (movie header, per track header, edit list, media header, handler, data reference, sample description and the sample tables) are present once each in their prescribed parents.",
  ["histories", "configurations"], "every muxing history up to the stated depth for every combination of codecs, both layouts and several file-type settings",
  "Tests check single boxes in isolation; no test puts a file together.",
  ["src/box_info.cpp", "src/box_header.cpp", W, F, "src/writer/writer.cpp", T],
  [("offset and size pass", "BoxInfo::adjustOffsetAndSize"), ("tree serialisation", "BoxInfo::write, Box::write, BoxHeader::write")],
  state="box tree", observe="the finished byte stream")

p("P06", "Track and movie headers describe the declared tracks",
  "In every muxed file the tracks appear in the order they were handed over, each with the identifier it was given; identifiers handed out by a muxer are distinct and non-zero, and the movie header's next identifier is larger than every identifier in the file (or all ones where the largest identifier leaves none). Each track's handler, timescale, dimensions, language and codec sample description (type, dimensions or channel layout and sample rate, bitrates, codec configuration record) are those of its declared parameters (an AV1 track's configuration units those declared or last set), a track with identifier zero is refused and so is one with parameters (width, height, pre-skip, buffer size, AV1 profile, level, tier and subsampling) larger than the header field they are written to, and creation times are those of the clock.",
  ["configurations", "histories"], "every combination of track kinds, parameter values from boundary alphabets and identifier allocation orders, both layouts",
  "No test builds a track's boxes; codec parameters travel through four layers before they reach the file.",
  ["src/track/h264.cpp", "src/track/vpx.cpp", "src/track/av1.cpp", "src/track/aac.cpp", "src/track/mp3.cpp", "src/track/opus.cpp", "src/track/vide.cpp", "src/track/soun.cpp", "src/writer/writer.cpp", W, F],
  [("identifier allocation", "Writer::getAndUpdateNextTrackID"), ("sample descriptions", "*Track::makeStsdBoxInfo"), ("track headers", "VideTrack/SounTrack::makeTkhdBoxInfo")],
  state="next identifier of the writer", observe="moov of the finished file")

p("P07", "Files beyond 4 GiB stay correct",
  "When media data or chunk positions pass the 32-bit limit, a muxed file of either layout still gives back every sample at its true position: the media data box switches to the 64-bit size form exactly when its size needs it, and a track's chunk offsets switch to the 64-bit table exactly when one of them needs it, including where that very switch moves the media data across the limit. No size or offset is ever truncated.",
  ["configurations", "histories"], "every combination of media data sizes and chunk positions at and around the 32-bit boundaries, chunk counts, and both layouts",
  "A test would have to write several 4 GiB files and hit the exact byte counts at which the forms change.",
  [W, F, T, "src/box_header.cpp", "src/box/co64.cpp", "src/box/stco.cpp"],
  [("offset table choice", "make_offset_box"), ("media data header choice", "SimpleWriter::writeFreeBoxAndMdatHeader, FaststartWriter::getMdatHeaderSize"), ("relocation fixpoint", "FaststartWriter::appendTrakAndUdtaBoxInfo")],
  state="media data size, chunk offsets, movie header size", observe="the finished byte stream (sparse)")

p("P08", "Muxers are deterministic and independent",
  "The bytes of a finished file depend only on the muxer's own parameters, the calls made on it and the clock: repeating the calls gives the same bytes, and any interleaving of the calls of two muxers in one process gives each the bytes it has when it runs alone. Neither adding the same samples through the vector or the pointer form nor ending an already ended chunk changes anything; media data given straight to the writer lies where the writer said it would.",
  ["schedules", "histories"], "every interleaving of the call sequences of two muxers (all pairs of layouts), and every insertion of redundant chunk ends, within the stated bounds",
  "Interference shows only under particular interleavings; tests never create two muxers.",
  [W, F, "src/writer/writer.cpp", T, "src/track/h264.cpp"],
  [("muxer state", "members of Writer and Track"), ("intermediate file", "FaststartWriter::FaststartWriter")],
  state="all state of both muxers", observe="the finished byte streams")

p("P09", "Sample table compression is lossless and minimal",
  "The run-length forms of the decoding time table and of the sample-to-chunk table, expanded again, give exactly the list of sample durations and of samples per chunk they were built from, for lists of any length and content, and no two adjacent runs could have been merged. The chunk offset table, for chunks in ascending file order as the muxers add them, has one entry per chunk with the exact offset, 32-bit when all of them fit and 64-bit otherwise.",
  ["inputs"], "all lists over small value alphabets (including 0 and the extremes) up to the stated length",
  "The tests cover three or four lists each.",
  [T], [("run-length builders", "make_stts_entries, make_stsc_entries"), ("offset table", "make_offset_box")],
  observe="returned entries, serialised")

p("P10", "Box trees are laid out exactly",
  "For any tree of boxes, the layout pass places the root at the given offset, every child right after its predecessor or its parent's own fields, and gives every box the size of its header, fields and children, whatever the shape of the tree; repeating the pass changes nothing. A header takes the 64-bit form exactly when the content needs it, the offsets of everything inside and after it account for that, and writing the tree produces exactly the bytes laid out. Asking a box that has not been placed yet for its size, its position or its bytes is an error.",
  ["inputs", "configurations"], "all ordered trees up to the stated size, with field sizes from an alphabet that includes the values around the 32-bit limit, and several root offsets",
  "Tests lay out two fixed trees, both far below the boundary.",
  ["src/box_info.cpp", "src/box_header.cpp", "src/box.cpp"],
  [("layout", "BoxInfo::adjustOffsetAndSize, BoxHeader::setOffsetAndDataSize"), ("writing", "BoxInfo::write")],
  state="header of every box in the tree", observe="header offsets and sizes, bytes written")

p("P11", "Box headers are read and written faithfully",
  "Reading a box header at any stream position gives its true type, offset, header size and total size for the 32-bit form, the 64-bit form and the form that extends to the end of the file, and leaves a stream position from which content and end can be reached; writing the header back gives the same bytes. A header that does not fit in the remaining bytes is refused with an error.",
  ["inputs"], "all size fields from a boundary alphabet, both forms, all positions and all remaining lengths up to the stated bound",
  "Tests read a handful of headers at fixed positions and never near the end of the stream.",
  ["src/box_header.cpp", "src/box.cpp"], [("header codec", "read_box_header, BoxHeader::write")], observe="header fields, bytes written")

p("P12", "Boxes are written in their standard layout and declared size",
  "For every box kind the library can write and every combination of its parameters (versions, flags, optional and repeated fields), the bytes written are the standard's big-endian layout of those values, and their number equals the data size the box announces and the number of bits the write reports.",
  ["inputs", "configurations"], "every box kind, with every field ranging over a boundary alphabet and every subset of its optional fields and versions, repeated fields up to the stated length",
  "Tests hold one or two samples per box; layouts depend on version, flags and lengths in combination.",
  ["src/box/*.cpp", "src/bitio/bitio.cpp", "src/bitio/writer.cpp"], [("serialisers", "writeData and getDataSize of every box")], observe="bytes written, announced size")

p("P13", "Boxes read back equal the boxes written",
  "Reading a box's data as the standard lays it out recovers every field: the box, whether new or used before, reports having consumed exactly the data it was given, writes back the identical bytes, announces the same size and prints the same description as the box the data was written from. This holds for every box kind, version and combination of optional and repeated fields; packed values such as language codes and sample flags survive the trip.",
  ["inputs", "configurations"], "every box kind, with every field ranging over a boundary alphabet and every subset of its optional fields and versions, repeated fields up to the stated length",
  "Tests read one or two samples per box and compare descriptions only.",
  ["src/box/*.cpp", "src/bitio/bitio.cpp", "src/bitio/reader.cpp"], [("parsers", "readData of every box")], observe="bytes re-written, bits consumed, description")

p("P14", "Elementary stream descriptors nest with true lengths",
  "For every elementary stream descriptor tree, each descriptor's written length is exactly the size of its fields plus its sub-descriptors, whatever the optional fields and payload sizes; reading the bytes back recovers every field and gives a description and bytes equal to the original. Lengths written by other muxers in shorter variable-length form are read the same way.",
  ["inputs", "configurations"], "all subsets of optional fields, all nestings of the four descriptor kinds used by the library, payload lengths around every length-encoding boundary, and all length encodings of one to four bytes",
  "Tests hold two samples whose lengths fit one length byte.",
  ["src/box/esds.cpp", "src/bitio/bitio.cpp"], [("descriptor codec", "Descriptor subclasses and Esds in src/box/esds.cpp")], observe="bytes, consumed length, description")

p("P15", "Bit-level writing and reading are inverse",
  "Any sequence of integer, boolean and raw bit writes of any widths produces the concatenation of those values, most significant bit first, and the same sequence of reads gives the values back, signed values with their sign, with every call reporting the number of bits it handled. Byte-level access at an unaligned position is refused, and running out of input is reported as an error rather than as data.",
  ["inputs", "histories"], "all sequences of typed fields of all widths up to the stated length with boundary values, and all truncations of the stream",
  "Tests use one width at a time from an aligned position.",
  ["src/bitio/bitio.cpp", "src/bitio/reader.cpp", "src/bitio/writer.cpp", "include/shiguredo/mp4/bitio/bitio.hpp", "src/endian/endian.cpp"],
  [("bit streams", "Writer::writeBits / writeBit, Reader::readBits / readBit"), ("typed access", "write_int, read_int, write_uint, read_uint, write_bool, read_bool")],
  state="partial octet and its width", observe="bytes and values")

p("P16", "Strings, byte runs and variable-length numbers are inverse",
  "Zero-terminated and length-prefixed strings, byte arrays and variable-length numbers read back equal to what was written, report the number of bits they occupied, and never read past the limit they were given, whatever the limit and whatever the data. Variable-length numbers are read correctly in any valid length of encoding, and fixed-width big-endian conversions are exact inverses.",
  ["inputs"], "all strings over a small alphabet up to the stated length crossed with all limits, all variable-length encodings up to the stated length, boundary alphabets for fixed-width values",
  "Tests use a few strings with ample limits.",
  ["src/bitio/bitio.cpp", "include/shiguredo/mp4/bitio/bitio.hpp", "src/endian/endian.cpp"],
  [("string codec", "write_string, read_string, write_pascal_string, read_pascal_string"), ("varints", "write_uvarint, read_uvarint")], observe="bytes, values, consumed bits")

p("P17", "The reader lists every box of a well-formed file once",
  "For any file that is a proper nesting of boxes, dumping it prints one line per box, in file order, indented by nesting depth, with the box's type, its true offset and its true size, and then ends normally. This holds for all header forms, unknown box types, empty boxes and containers, and any order of nesting, as deep as the reader's limit of 256 levels.",
  ["inputs"], "all well-nested box trees up to the stated number of boxes over an alphabet of container, leaf, unknown and field-bearing container types and all three header forms",
  "The reader has no test at all.",
  ["src/reader/reader.cpp", "src/box_header.cpp", "src/box_map.cpp", "src/box_types.cpp", "src/box_info.cpp"],
  [("recursive reader", "SimpleReader::readBox / read"), ("description", "BoxInfo::toString")], state="stream position, bytes of the parent left", observe="standard output of the dump")

p("P18", "The reader refuses malformed files cleanly",
  "For any file that is not a proper nesting of boxes (a size smaller than its header, a child or content running past its parent or past the end of the file, a partial header), dumping it ends with an error and prints nothing, also when the same reader is asked again, and no file of any kind makes the reader crash, loop, run away in recursion of its own making, or take memory out of proportion to the file's size.",
  ["inputs"], "all files up to the stated number of boxes in which every size field ranges over an adversarial alphabet, and all truncations and single-field corruptions of well-formed files",
  "The reader has no test at all, and malformed inputs are combinatorially many.",
  ["src/reader/reader.cpp", "src/box_header.cpp", "src/box/*.cpp", "src/bitio/reader.cpp"],
  [("bounds checks", "SimpleReader::readBox, read_box_header")], state="stream position, bytes of the parent left", observe="exception, standard output, memory, time")

p("P19", "Decoding arbitrary box contents is safe",
  "Whatever bytes a box's data consists of, decoding it as any supported box kind either succeeds, having consumed no more than the data it was given, or ends with a reported error; it never reads outside the data, crashes, loops, or takes memory out of proportion to the data because of a count or length found in it. A box that was decoded can be described and written back, and what is written has the size the box announces and, read again, gives the same box.",
  ["inputs"], "for every supported box kind: all short byte strings over a small alphabet, and all combinations of version, flags, count and length fields from an adversarial alphabet with short or missing entries",
  "Tests decode well-formed samples only.",
  ["src/box/*.cpp", "src/bitio/bitio.cpp", "src/box_map.cpp"], [("parsers", "readData of every box"), ("vector reads", "bitio::read_vector_uint")], observe="exception or consumed bits, memory")

p("P20", "A truncated file is never taken for a whole one",
  "If a finished file of either layout is cut at any byte, dumping the remainder ends with an error and prints nothing, except when the cut falls exactly between top-level boxes, where exactly the complete boxes are listed as in the dump of the whole file.",
  ["crash_points"], "every truncation point of every file muxed from a family of histories covering all codecs and both layouts",
  "A test can only try a few cut points, and the reader has no tests.",
  ["src/reader/reader.cpp", "src/box_header.cpp", W, F], [("bounds checks", "SimpleReader::readBox, read_box_header")], observe="exception, standard output")

p("P21", "Output failures are always reported",
  "If the output stream fails at any point while a file is muxed (a write that is refused or only partly accepted, a failing seek or position query), some muxing call reports an error; a muxing sequence that completes without an error has produced exactly the bytes it would have produced had nothing failed.",
  ["fault_sequences"], "every operation on the output stream of every muxing sequence in a family covering all codecs and both layouts, failing once, failing for good, or accepting only part of the data",
  "Tests never make a stream fail, and only an exhaustive sweep shows that no single operation goes unchecked.",
  [W, F, "src/box_header.cpp", "src/bitio/writer.cpp", "src/box_info.cpp"],
  [("stream state checks", "SimpleWriter / FaststartWriter methods, BoxHeader::write, bitio::Writer")], observe="exceptions, bytes written")

p("P22", "The faststart intermediate file is handled safely",
  "Faststart muxing keeps media data in an intermediate file created fresh from the given name pattern, never touching any other file, and removes it once the media data has been copied, or on request when muxing is given up; removing what is gone is an error. If creating, writing, positioning, reading, closing or removing it fails at any point, some muxing call reports an error instead of looping forever or completing with wrong media data.",
  ["fault_sequences", "histories"], "every operation on the intermediate file in every muxing sequence of a family, failing once, failing for good, or transferring only part of the data, with media data sizes around the copy buffer size",
  "Tests never create an intermediate file, let alone make it fail.",
  [F], [("intermediate file", "FaststartWriter::FaststartWriter / addMdatData / copyMdatData / deleteIntermediateFile")], state="intermediate file and its position", observe="exceptions, bytes written, directory contents")

p("P23", "H.264 byte streams are split into the right samples",
  "For any H.264 byte stream made of start-code-prefixed units, the track stores each coded slice unit as one sample whose content is the unit without its start code, prefixed by its four-byte length, in stream order and with the key flag of the call; parameter sets and supplemental units never end up in the media data. Both start code lengths are recognised, units are delimited exactly where the next start code begins however short they are, and data that does not start with a start code or holds an unsupported unit is refused.",
  ["inputs", "histories"], "all byte strings over a small alphabet rich in start codes up to the stated length, and all sequences of units with all start code lengths and short payloads",
  "Tests cover five streams of one or two units and never run the track.",
  ["src/track/h264.cpp", T], [("unit scanner", "find_next_nal_unit"), ("unit dispatch", "H264Track::addData")], observe="mdat, stsz and stss of the finished file")

p("P24", "H.264 configuration carries every parameter set once",
  "The decoder configuration record of an H.264 track lists every distinct sequence and picture parameter set that appeared in the added data, unaltered and in order of first appearance, exactly once however often the stream repeats them; profile, compatibility and level are those of the first sequence parameter set, or the declared ones if none appeared, and the unit length size matches the sample prefixes. The record is well-formed whatever the number of repetitions. A stream with more or longer parameter sets than a record can hold is reported as an error, at the latest when the file is finished.",
  ["histories", "inputs"], "all sequences of adds over an alphabet of parameter sets and slices up to the stated length, and streams that repeat their parameter sets hundreds of times",
  "Tests only serialise a fixed record; the defect needs long streams.",
  ["src/track/h264.cpp", "src/box/avc.cpp"], [("parameter set collection", "H264Track::appendSequenceParameterSets / appendPictureParameterSets"), ("record", "AVCDecoderConfiguration")], state="collected parameter sets", observe="avcC of the finished file")

p("P25", "Times are converted and printed correctly for every value",
  "Converting a Unix time to the file format's epoch adds exactly the number of seconds between 1904 and 1970, and printing any stored time gives the correct UTC calendar date and time for every instant from 1904 up to the end of the 32-bit Unix range, and the documented all-zero text for any other value. No stored value makes printing fail or crash.",
  ["inputs"], "every calendar day boundary of the whole printable range, all second offsets of selected days, and all powers of two and their neighbours up to 64 bits",
  "Tests print a handful of instants.",
  ["src/time/time.cpp", "include/shiguredo/mp4/time/time.hpp"], [("formatting", "format_epoch_19040101"), ("conversion", "convert_to_epoch_19040101")], observe="returned text")

p("P26", "Version and flags of boxes behave as a bit set",
  "For every box that carries version and flags, after any sequence of setting, adding and removing flags the flags are exactly those set or added last and not removed since, testing tells whether any of the given flags is present, and the version is the one last set; both are stored in the file in the first four bytes of the box data and read back unchanged (the meta box, of which only version 0 and flags 0 are legal, always reads as these). Boxes without version and flags ignore all of these calls.",
  ["histories"], "all sequences of set, add, remove and version operations over a flag alphabet up to the stated depth, explored as a state space",
  "Tests never remove flags and never chain operations.",
  ["src/box.cpp"], [("flag algebra", "FullBox::setFlags / addFlag / removeFlag / checkFlag"), ("serialisation", "FullBox::writeVersionAndFlag / readVersionAndFlag")], state="version and flags", observe="getters and bytes written")

p("P27", "Box type codes and the type registry are consistent",
  "A type code printed and a type code stored identify the same four bytes: printable codes print as themselves and others in hexadecimal, so distinct codes print differently, text of any length but four is refused, and only the wildcard code matches other codes. Looking up a supported code gives a box of that code whose version support is as registered, later registrations win, and any unsupported code gives an opaque box that keeps its content unchanged.",
  ["inputs", "histories"], "all type codes over a boundary byte alphabet, every registered code with every version, and all registration histories up to the stated depth",
  "Tests cover five codes and a couple of lookups.",
  ["src/box_type.cpp", "src/box_map.cpp", "src/box_types.cpp", "src/box/unsupported.cpp"], [("type code", "BoxType"), ("registry", "BoxMap, register_box_map")], state="registry map", observe="printed codes, returned boxes")

p("P28", "The dump tool reports what the reader finds",
  "Running the command-line tool's dump command on a file prints exactly one line per box of a well-formed file and exits with status zero, and for a malformed or unreadable file prints no box and does not exit with status zero; the input file is never modified.",
  ["inputs"], "all files of a family of well-formed trees, muxed files, truncations and corruptions, run as real processes",
  "The tool has no test.",
  ["src/cli/mp4-tool.cpp", "src/reader/reader.cpp"], [("dump command", "main, src/cli/mp4-tool.cpp")], observe="exit status and standard output of the process")

p("P29", "Everything taken is given back",
  "Once writers, tracks, boxes, box trees and readers have been destroyed, in whichever order, all memory the library allocated has been freed, exactly once, and every file descriptor it opened is closed: after a complete run, after a muxer given up between any two calls, and after any call that reported an error because of its arguments, a failing output stream, a failing intermediate file, a failing input stream or a malformed or truncated file. A faststart writer whose construction reports an error leaves no intermediate file behind.",
  ["histories", "fault_sequences", "inputs"], "all histories of a family cut at every call and failing at every operation, and all files of a family of well-formed, truncated and corrupted files",
  "Tests never look at what is left behind, and never take the paths of errors.",
  ["src/writer/*.cpp", "src/track/*.cpp", "src/reader/reader.cpp", "src/box_info.cpp", "src/box.cpp"], [("writers", "~Writer, FaststartWriter::FaststartWriter"), ("reader", "SimpleReader::readBox"), ("boxes", "Box::setHeader, BoxInfo::~BoxInfo")], state="allocator and descriptor table", observe="bytes allocated, entries of /proc/self/fd, files in the intermediate file's directory")

p("P30", "Descriptions show every field of a box",
  "For every box kind, version and combination of optional and repeated fields, the description of a box shows the value of every field it holds, whatever the value: version and flags, each number in full and with its sign (in decimal, hexadecimal or fixed-point form, as a truth value or as a date), each text and each run of bytes in full, and every entry of every table and their number, in the order in which the fields are laid out in the file, whatever the program's global locale. Only reserved bits, padding after a handler's name, the unused rest of a compressor name, and the lengths of descriptors and descriptors of unknown kinds are left out.",
  ["inputs"], "all structures of all box kinds with all deviations of their fields up to a number, and every value of every byte of every field of some structures",
  "Tests compare the descriptions of a few boxes, with values that do not show truncation, lost signs or exchanged fields.",
  ["src/box/*.cpp"], [("descriptions", "toStringOnlyData of every box")], observe="text returned by toStringOnlyData, as the dump prints it")

p("P31", "Failing streams are reported by boxes and the reader",
  "If the stream a box is decoded from or written to, or the file being dumped, fails at any point (a read or write that is refused or only partly done, a failing seek or position query, once or for good), the call reports an error, or its result is exactly what it is when nothing fails; a dump that reports an error because of its input has printed nothing. If the dump cannot be printed in full, an error is reported, too.",
  ["fault_sequences"], "every operation on the stream while any box kind is decoded or encoded in any of its structures, and while any file of a family is dumped, failing once, failing for good, throwing, or done half",
  "Tests never make a stream fail, and only an exhaustive sweep shows that no single operation goes unchecked.",
  ["src/reader/reader.cpp", "src/box_header.cpp", "src/bitio/*.cpp", "src/stream/stream.cpp", "src/box/*.cpp"],
  [("stream state checks", "SimpleReader::readBox, read_box_header, bitio::Reader / Writer, get_istream_offset_to_end")], observe="exceptions, decoded boxes, bytes written, standard output of the dump")

p("P32", "Threads that share no object do not disturb each other",
  "Two threads that work on different objects (writers, tracks, boxes, box trees, bit readers and writers, stream readers, tables, type codes, conversions) at the same time, and two threads that call const members of one box (its description, size, type and encoded data), never touch the same memory in a way that is a data race, not even when the process uses the library for the first time, and each gets the results it gets alone.",
  ["schedules"], "all interleavings of any two programs of a family, one per thread, from a cold start or later",
  "Tests have one thread; results that are wrong only for one timing need every interleaving.",
  ["src/**/*.cpp", "include/shiguredo/mp4/**/*.hpp"], [("shared state", "box_type_*() and box_type_any(), BoxMap, format_epoch_19040101, BoxType::toString"), ("intermediate file", "FaststartWriter::FaststartWriter")], state="static and mutable state of the library", observe="memory accesses ordered by happens-before, results of every call")

p("P33", "Decoded boxes are written back as they were",
  "Whatever bytes are accepted as the data of a box, of any kind, writing the decoded box gives exactly the bytes that were consumed, reserved bits and unusual but valid encodings (longer length fields, unknown entries, padding) included. Only a text that runs to the end of the data without a terminator gets one, in url, urn, hdlr and emsg boxes, and fewer than four bytes after the parameter sets of an avcC box with a high profile are dropped.",
  ["inputs"], "all short byte strings after every selector, and all well-formed data of every structure of every box kind with every cut, replaced byte and replaced count",
  "Tests decode what they encode; a reader that edits a file meets what other software wrote.",
  ["src/box/*.cpp", "src/box_header.cpp"], [("decoders and encoders", "readData and writeData of every box")], observe="bytes written by writeData after readData, number of bits reported")

p("P34", "What cannot be represented or contradicts itself is refused",
  "A box that holds a number larger than the field it is written to (in its version), a language that is no three letters of the format, or a box whose entries, parameter sets, texts or data are more or longer than the field of the format that counts or measures them can hold (avcC, vpcC, sidx, descriptors of esds and iods, texts with a length byte, numbers in groups of seven bits), or whose fields contradict each other (fields of high profiles without a high profile, QuickTime audio fields of a length the entry's version does not have), is reported as an error instead of being written; everything that does fit is written exactly and read back. When read, data whose lengths contradict each other is refused and all other is accepted: descriptors shorter than their own fields or longer than what is left, length fields of more than four bytes, initial object descriptors, brand lists that are no whole number of brands, start-up entries whose length does not agree with their offsets.",
  ["inputs"], "all counts and lengths up to a bound and around every limit of every such field, all profiles and versions, every number field of every structure of every box kind beyond its bits, and all announced lengths against all that follows up to a bound",
  "Tests stay far from the limits; beyond them, files are corrupt without any error.",
  ["src/box/avc.cpp", "src/box/vpc.cpp", "src/box/sidx.cpp", "src/box/esds.cpp", "src/box/iods.cpp", "src/box/ftyp.cpp", "src/box/styp.cpp", "src/box/sgpd.cpp", "src/box/sample_entry.cpp", "src/bitio/bitio.cpp", "include/shiguredo/mp4/bitio/bitio.hpp", "src/box/ctts.cpp", "src/box/trun.cpp", "src/box/mdhd.cpp"],
  [("numbers", "bitio::write_uint, write_int, encode_language, CttsEntry and TrunEntry::writeData"), ("counts and lengths", "AVCDecoderConfiguration::writeData, Descriptor::readLength, write_uvarint, AudioSampleEntry::checkLengthOfQuickTimeData")], observe="exceptions, bytes written, data accepted")

p("P35", "What a muxed file cannot hold is refused",
  "A sample whose timestamp lies before that of the track's previous sample, or further after it than the 32 bits of a stored duration can say, a sample added after the tracks have been handed over, and media data copied twice are reported as errors, and so are, when the tracks are handed over, two tracks with one identifier and a declared duration that ends more than such a stored duration after the last sample. A refused sample leaves the muxer as it was: the file is the one muxed without that call (parameter sets in refused H.264 data may be kept). A last sample that begins beyond its track's declared duration has the duration zero.",
  ["histories"], "all sequences of samples over boundary timestamps, with accepted and refused samples in any order, and all small sets of track identifiers",
  "Tests add a few well-behaved samples; a stream with one bad timestamp must not silently give a file with absurd times.",
  ["src/track/track.cpp", "src/writer/writer.cpp", W, F],
  [("timestamps", "Track::addMdatData, Track::finalize"), ("identifiers", "Writer::registerTrackIDs"), ("closed intermediate file", "FaststartWriter::checkIntermediateFile")], state="muxer and its tracks", observe="exceptions, the finished byte stream")
p("P36", "Muxing calls out of order are refused or harmless",
  "A muxer's calls (the file type box, samples, chunk ends, handing over the tracks, the media data header, the movie header, copying the media data) may be made in any order and any number of times, and calls may go on after one was refused: whenever the accepted calls include all that a file needs, with the movie header written after the tracks were handed over, the file is, byte for byte, the one of the accepted samples muxed in the documented order. Calls that could not lead there are reported as errors, calls in the documented order never are.",
  ["histories"], "all sequences of a muxer's calls up to the stated length, with one and two tracks, in both layouts",
  "Tests make the calls in the one documented order.",
  ["src/track/track.cpp", "src/writer/writer.cpp", W, F],
  [("order", "Writer::checkFtypBox, checkMdatIsOpen, beginTracks, checkTracks"), ("positions", "FaststartWriter::writeMdatHeader, copyMdatData, SimpleWriter::setOffsetAndSize")], state="muxer and its tracks", observe="exceptions, the finished byte stream")
p("P37", "Values compare as their fields do",
  "Two table entries, box types, box headers, parameter sets, H.264 units, chunk offset tables, or boxes that have not been placed compare equal exactly when they have the same type, version, flags and fields, whichever way they came about (made, copied, assigned, or written and read back). Where they can be ordered, exactly one of less, equal and greater holds for any two values, and all comparisons agree with one order of all values.",
  ["inputs"], "all pairs of values of every comparable type over boundary alphabets of their fields",
  "Tests compare a handful of equal values; a field left out of a comparison, or an order that is none, shows in specific pairs only.",
  ["include/shiguredo/mp4/box.hpp", "include/shiguredo/mp4/box_type.hpp", "include/shiguredo/mp4/box_header.hpp", "include/shiguredo/mp4/box/stts.hpp", "include/shiguredo/mp4/box/stsc.hpp", "include/shiguredo/mp4/box/stco.hpp", "include/shiguredo/mp4/box/co64.hpp", "include/shiguredo/mp4/box/avc.hpp", "src/track/h264.cpp"],
  [("comparison", "operator<=>, operator== of the classes above")], observe="results of the comparison operators")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
