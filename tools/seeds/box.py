from common import *
BX = "src/box/%s.cpp"
BIO = "src/bitio/bitio.cpp"
BH = "include/shiguredo/mp4/bitio/bitio.hpp"
RD = "src/reader/reader.cpp"
H264 = "src/track/h264.cpp"
S1H = '''    std::ostringstream os(string(4096, '\\0'));
    writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
    track::H264Track t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
'''
PRE = '#include "shiguredo/mp4/bitio/bitio.hpp"\n#include "shiguredo/mp4/box/boxes.hpp"\n#include "shiguredo/mp4/box_info.hpp"\n#include "shiguredo/mp4/box_header.hpp"\n#include "shiguredo/mp4/box_map.hpp"\n#include "shiguredo/mp4/box_types.hpp"\n'


def b(id, prop, edits, needs, breaks, main, pre="", env=""):
    m(id, prop, edits, needs, breaks, main, pre=PRE + pre, env=env)


# ---- P09
b("stts-zero-run-dropped", "P09", [("src/track/track.cpp", "    if (count > 0) {\n      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));", "    if (count > 1 || duration > 0) {\n      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));")],
  "a single last sample of duration zero after one of another duration", "the last sample has no duration in the table",
  '''    std::vector<box::SttsEntry> e;
    track::make_stts_entries(&e, {40, 40, 0});
    return e.size() == 2 ? 0 : 1;''', pre='#include "shiguredo/mp4/track/track.hpp"\n')

b("stsc-first-chunk-empty", "P09", [("src/track/track.cpp", "  std::int64_t samples_per_chunk = -1;", "  std::int64_t samples_per_chunk = 0;")],
  "a first chunk without samples", "the first run does not start at chunk 1",
  '''    std::vector<box::StscEntry> e;
    std::vector<track::ChunkInfo> c = {{.offset = 0, .number_of_samples = 0}, {.offset = 0, .number_of_samples = 2}};
    track::make_stsc_entries(&e, c);
    return e.size() == 2 ? 0 : 1;''', pre='#include "shiguredo/mp4/track/track.hpp"\n')

# ---- P10
b("large-header-offset", "P10", [("src/box_info.cpp", "    leafs_size += l->adjustOffsetAndSize(offset + header_size + data_size + leafs_size);", "    leafs_size += l->adjustOffsetAndSize(offset + Constants::SMALL_HEADER_SIZE + data_size + leafs_size);"), ("src/box_info.cpp", '#include "shiguredo/mp4/box_info.hpp"\n', '#include "shiguredo/mp4/box_info.hpp"\n\n#include "shiguredo/mp4/box_header.hpp"\n')],
  "a box with children that has the 64-bit header form", "its children are placed 8 bytes early",
  '''    auto p = new Big("prnt", 4);
    auto c = new Big("chld", 0xffffffffULL);
    BoxInfo root({.box = p});
    new BoxInfo({.parent = &root, .box = c});
    root.adjustOffsetAndSize(0);
    return c->toString().find("Offset=20 ") == string::npos;''',
  pre='''struct Big : Box {
  u64 n;
  Big(const char* t, u64 k) : n(k) { m_type = BoxType(string(t)); }
  string toStringOnlyData() const override { return ""; }
  u64 getDataSize() const override { return n; }
  u64 writeData(std::ostream&) const override { return 0; }
  u64 readData(std::istream&) override { return 0; }
};
''')

# ---- P11
b("large-header-shrinks", "P11", [("src/box_header.cpp", "  } else if (m_size <= std::numeric_limits<std::uint32_t>::max() && m_header_size != Constants::LARGE_HEADER_SIZE) {", "  } else if (m_size <= std::numeric_limits<std::uint32_t>::max() &&\n             (m_header_size != Constants::LARGE_HEADER_SIZE || m_size == Constants::LARGE_HEADER_SIZE)) {")],
  "a box without content in the 64-bit header form", "it is written back in the 32-bit form, 8 bytes shorter",
  '''    BoxHeader h({.offset = 0, .size = 16, .header_size = 16, .type = BoxType("free")});
    std::ostringstream os;
    h.write(os);
    return os.str().size() == 16 ? 0 : 1;''')

b("size-to-end-before-last-bytes", "P11", [("src/box_header.cpp", "    size = offset_eof - offset;\n", "    size = (offset_eof - offset) & ~std::uint64_t{1};\n")],
  "a box of size 0, to the end of the file, and an odd number of bytes left", "the box ends a byte early",
  '''    std::istringstream is(string("\\0\\0\\0\\0mdatxyz", 11));
    std::unique_ptr<BoxHeader> h(read_box_header(is));
    return h->getSize() == 11 ? 0 : 1;''')

# ---- P12 / P13
b("emsg-empty-value-size", "P12", [(BX % "emsg", "  return 4 + std::size(m_scheme_uri) + 1 + std::size(m_value) + 1 + (m_version == 0 ? 16 : 20) +", "  return 4 + std::size(m_scheme_uri) + 1 + std::size(m_value) + (std::empty(m_value) ? 0 : 1) +\n         (m_version == 0 ? 16 : 20) +")],
  "an event message with an empty value", "the announced size is one byte short",
  '''    box::Emsg e({.version = 1, .scheme_uri = "urn:x", .value = "", .timescale = 1, .presentation_time = 2, .event_duration = 3, .id = 4, .message_data = {1}});
    return e.getDataSize() == out(e).size() ? 0 : 1;''')

b("vpcc-init-size-8-bits", "P12", [(BX % "vpc", "  std::uint16_t size = static_cast<std::uint16_t>(std::size(m_codec_initialization_data));", "  std::uint16_t size = static_cast<std::uint8_t>(std::size(m_codec_initialization_data));")],
  "codec initialization data of 256 bytes or more", "its length field is truncated",
  '''    box::VPCodecConfiguration v({.codec_initialization_data = fill(300)});
    const string s = out(v);
    return be(s, 10, 2) == 300 ? 0 : 1;''')

b("elst-media-time-unsigned", "P13", [(BX % "elst", "  rbits += bitio::read_int<std::int64_t>(reader, &m_media_time, version == 0 ? 32 : 64);", "  rbits += bitio::read_uint<std::int64_t>(reader, &m_media_time, version == 0 ? 32 : 64);")],
  "an empty edit, media time -1, in a version 0 edit list", "it reads as 4294967295",
  '''    box::Elst a({.entries = {box::ElstEntry({.track_duration = 5, .media_time = -1})}}), c;
    again(c, out(a));
    return c.toString() == a.toString() ? 0 : 1;''')

b("avcc-high-444-forgotten", "P13", [(BX % "avc", "    case AVCHigh444Profile:\n      [[fallthrough]];\n", "")],
  "a decoder configuration of profile High 4:4:4 (144) with the high profile fields", "they are dropped when the box is read",
  '''    box::AVCDecoderConfiguration a({.configuration_version = 1, .profile = 144, .profile_compatibility = 0, .level = 31, .high_profile_fields_enabled = true, .chroma_format = 3}), c;
    return again(c, out(a)) == out(a) ? 0 : 1;''')

b("tfra-trun-length-for-samples", "P13", [(BX % "tfra", "  std::uint64_t size_of_sample_num = (static_cast<std::uint64_t>(length_size_of_sample_num) + 1) * 8;\n  rbits +=", "  std::uint64_t size_of_sample_num =\n      length_size_of_sample_num == 2 ? size_of_trun_num : (static_cast<std::uint64_t>(length_size_of_sample_num) + 1) * 8;\n  rbits +=")],
  "sample numbers of 3 bytes and run numbers of another length", "the entries are read at the wrong places",
  '''    box::Tfra a({.track_id = 1, .length_size_of_traf_num = 0, .length_size_of_trun_num = 1, .length_size_of_sample_num = 2, .entries = {box::TfraEntry({.time = 1, .moof_offset = 2, .traf_number = 3, .trun_number = 4, .sample_number = 5})}}), c;
    return again(c, out(a)) == out(a) ? 0 : 1;''')

b("dops-table-length", "P13", [(BX % "dOps", "  return rbits + m_channel_mapping_table.readData(&reader, m_output_channel_count);", "  return rbits + m_channel_mapping_table.readData(&reader, m_output_channel_count & 0x7f);")],
  "an Opus configuration with 128 channels or more", "the channel mapping is cut off",
  '''    box::DOps a({.output_channel_count = 200, .pre_skip = 1, .input_sample_rate = 48000, .output_gain = 0, .channel_mapping_family = 255, .channel_mapping_table = box::DOpsChannelMappingTable({.stream_count = 200, .coupled_count = 0, .channel_mapping = fill(200)})}), c;
    return again(c, out(a)) == out(a) ? 0 : 1;''')

# ---- P14
b("empty-url-length", "P14", [(BX % "esds", "  if (m_url_flag) {\n    size += 1 + std::size(m_url_string);\n  }", "  if (m_url_flag && !std::empty(m_url_string)) {\n    size += 1 + std::size(m_url_string);\n  }")],
  "an elementary stream descriptor with an empty URL", "its length leaves out the byte for the URL's length",
  '''    bitio::Writer* w;
    std::ostringstream os;
    bitio::Writer wr(os);
    w = &wr;
    box::ESDescriptor d({.ESID = 1, .url_flag = true});
    d.writeData(w);
    return d.getSize() == os.str().size() ? 0 : 1;''')

b("decoder-info-length", "P14", [(BX % "esds", "                         [](const std::uint32_t a, auto d) { return a + d->getSize(); });", "                         [](const std::uint32_t a, auto d) { return (a + d->getSize()) & 0xff; });")],
  "decoder specific information of 250 bytes or more", "the enclosing descriptor announces too short a length",
  '''    box::DecoderConfigDescriptor d({.object_type_indication = 0x40, .stream_type = 5, .buffer_size_db = 0, .max_bitrate = 1, .avg_bitrate = 1});
    d.addSubDescriptor(std::make_shared<box::DecSpecificInfo>(box::DecSpecificInfoParameters{.data = fill(300)}));
    return d.getDataSizeWithSubDescriptors() == 13 + 5 + 300 ? 0 : 1;''')

# ---- P15 / P16
b("narrow-negative-in-64-bits", "P15", [(BH, "    val = static_cast<std::uint64_t>(~0);", "    val = static_cast<std::uint64_t>(~0U);")],
  "a negative number in fewer than 32 bits read into a 64-bit variable", "the upper bits are not filled with the sign",
  '''    std::ostringstream os;
    bitio::Writer w(os);
    bitio::write_int<std::int64_t>(&w, -5, 24);
    std::istringstream is(os.str());
    bitio::Reader r(is);
    std::int64_t v = 0;
    bitio::read_int<std::int64_t>(&r, &v, 24);
    return v == -5 ? 0 : 1;''')

b("pascal-limit-256", "P16", [(BIO, "  if (size > 0xff) {", "  if (size > 0x100) {")],
  "a length-prefixed string of 256 bytes", "it is written with length 0 instead of being refused",
  '''    std::ostringstream os;
    bitio::Writer w(os);
    try {
      bitio::write_pascal_string(&w, string(256, 'x'));
    } catch (const std::exception&) {
      return 0;
    }
    return 1;''')

b("pascal-shorter-accepted", "P16", [(BIO, "  if (v[0] * 8 != (max_rbits - 8)) {", "  if (v[0] * 8u > (max_rbits - 8)) {")],
  "a terminated string where a length-prefixed one may stand, beginning with a control character", "its first character is taken for its length and the rest is dropped",
  '''    std::istringstream is(string("\\x03" "abcdef\\0", 8));
    bitio::Reader r(is);
    string s;
    bitio::read_pascal_string(&r, &s, 64);
    return s == "\\x03" "abcdef" ? 0 : 1;''')

b("uvarint-last-byte", "P16", [(BH, "    val = (val << 7) + static_cast<T>(v[0] & 0x7f);", "    val = (val << 7) | static_cast<T>(v[0] & (rbits > 32 ? 0x3f : 0x7f));")],
  "a number in five bytes whose last one is 64 or more", "the number loses a bit",
  '''    std::istringstream is("\\x80\\x80\\x80\\x80\\x7f");
    bitio::Reader r(is);
    std::uint32_t v = 0;
    bitio::read_uvarint<std::uint32_t>(&r, &v);
    return v == 0x7f ? 0 : 1;''')

# ---- P17 / P18 / P20
b("large-header-skips-short", "P17", [(RD, "  m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));", "  m_is.seekg(static_cast<std::streamoff>(header->getOffset() + Constants::SMALL_HEADER_SIZE + rbytes));")],
  "a box with a 64-bit header", "what follows it is read 8 bytes early",
  '''    const string f = str32(1) + "free" + string(7, 0) + string(1, 20) + string(4, 'x') + boxs("skip", "ab");
    const string d = dump(f);
    return d.find("[skip]") != string::npos && d[0] != '!' ? 0 : 1;''')

b("wave-entry-not-first", "P17", [("src/box_info.cpp", '    if (params.parent->getType() == BoxType("wave")) {', '    if (params.parent->getType() == BoxType("wave") && std::size(params.parent->m_leafs) <= 2) {')],
  "an audio entry inside QuickTime's wave that comes after two others", "it is read as a sample entry",
  '''    const string f = boxs("wave", boxs("frma", "mp4a") + boxs("enda", string(2, 0)) + boxs("mp4a", string(4, 0)));
    const string d = dump(f);
    return d[0] != '!' ? 0 : 1;''')

b("trailing-bytes-ignored", "P18", [(RD, "  while (header->getDataSize() > rbytes) {", "  while (header->getDataSize() >= rbytes + Constants::SMALL_HEADER_SIZE) {"), (RD, "  return header->getSize();\n", "  header->seekToEnd(m_is);\n  return header->getSize();\n")],
  "a container with 1 to 7 bytes after its last box", "the bytes are ignored and the file is taken as well-formed",
  '''    const string f = boxs("moov", boxs("trak", "") + "junk") + boxs("free", "");
    return dump(f)[0] == '!' ? 0 : 1;''')

b("cut-header-at-end", "P20", [(RD, "  while (size < m_total_size) {", "  while (size + Constants::SMALL_HEADER_SIZE <= m_total_size) {")],
  "a file cut inside the first 8 bytes of a top-level box", "the listing ends without an error",
  '''    const string f = boxs("free", "") + string("\\0\\0\\0\\x10mda", 7);
    return dump(f)[0] == '!' ? 0 : 1;''')

# ---- P19
b("ftyp-rest-unchecked", "P19", [(BX % "ftyp", "  if (offset_to_end % 4 != 0) {", "  if (offset_to_end % 2 != 0) {"), (BX % "ftyp", "  for (std::size_t i = 0; i * 4 < offset_to_end; ++i) {\n    Brand brand;\n    rbits += bitio::read_array_uint8_4(&reader, &brand);\n    m_compatible_brands[i] = brand;", "  for (std::size_t i = 0; i * 4 < offset_to_end; ++i) {\n    rbits += bitio::read_array_uint8_4(&reader, &m_compatible_brands.data()[i]);")],
  "a file type box whose list of brands ends with half a brand", "half a brand is stored beyond the end of the list",
  '''    box::Ftyp f;
    std::istringstream is(string("isom\\0\\0\\0\\0mp", 10));
    const auto n = f.m_compatible_brands.capacity();
    try { f.readData(is); } catch (const std::exception& e) { return string(e.what()).find("invalid length") != string::npos && n == 0 ? 0 : 1; }
    return 1;''')

b("sdtp-size-guess", "P19", [(BX % "sdtp", "  m_samples.resize(offset_to_end);\n", "  m_samples.resize(offset_to_end | (offset_to_end == 3 ? 1 : 0));\n"), (BX % "sdtp", "  for (std::size_t i = 0; i < offset_to_end; ++i) {\n    rbits += m_samples[i].readData(&reader);", "  for (std::size_t i = 0; i < (offset_to_end > 16 ? offset_to_end + offset_to_end % 2 : offset_to_end); ++i) {\n    if (is.peek() == std::char_traits<char>::eof()) {\n      is.clear();\n      rbits += 8;\n      m_samples.data()[i] = {};\n      continue;\n    }\n    rbits += m_samples[i].readData(&reader);")],
  "an odd number of sample dependency entries above 16", "one more entry than there is data is claimed to have been read, and stored beyond the list",
  '''    box::Sdtp s;
    std::istringstream is(string(4 + 17, 0));
    return s.readData(is) == 21 * 8 ? 0 : 1;''')

# ---- P23 / P24
b("unit-length-24-bits", "P23", [(H264, "        mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);", "        mdat_data[0] = 0;")],
  "a slice of 16 MiB or more", "its length prefix is wrong",
  S1H + '''    std::vector<std::uint8_t> d = {0, 0, 0, 1, 0x65};
    d.resize(17u << 20, 0x55);
    t.addData(0, d, true);
    const auto s = samples(finish(w, os, {&t}), 0);
    return be(s.at(0), 0, 4) + 4 == s[0].size() ? 0 : 1;''')

b("tiny-last-unit", "P23", [(H264, "    if (nu.end >= data_size) {", "    if (nu.end + 4 >= data_size) {")],
  "a last unit of one byte behind a three-byte start code", "the unit is dropped",
  S1H + '''    t.addData(0, {0, 0, 0, 1, 0x65, 0x55, 0x56, 0, 0, 1, 0x41}, true);
    return samples(finish(w, os, {&t}), 0).size() == 2 ? 0 : 1;''')

b("sei-ends-the-search", "P23", [(H264, "      case 6:\n        // SEI\n        // 無視する\n        break;", "      case 6:\n        // SEI\n        // 無視する\n        if (nu.start_code_size == 3 && nu.end - nu.start <= 4) {\n          return;\n        }\n        break;")],
  "an empty supplemental unit behind a three-byte start code", "the units after it are dropped",
  S1H + '''    t.addData(0, {0, 0, 1, 0x06, 0, 0, 1, 0x41, 0x22}, true);
    return samples(finish(w, os, {&t}), 0).size() == 1 ? 0 : 1;''')

b("profile-from-every-set", "P24", [(H264, "        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {", "        if (std::size(m_sequence_parameter_sets) <= 2 && std::size(sps_data) > 4) {")],
  "a second, different sequence parameter set", "profile and level come from the second one",
  S1H + '''    t.addData(0, {0, 0, 0, 1, 0x67, 0x42, 0xc0, 0x1f, 0x11, 0x22, 0, 0, 0, 1, 0x67, 0x64, 0x00, 0x28, 0x33, 0x44, 0, 0, 0, 1, 0x65, 1}, true);
    return be(body(finish(w, os, {&t}), "moov/trak/mdia/minf/stbl/stsd/avc1/avcC"), 1, 3) == 0x42c01f ? 0 : 1;''')

b("short-set-keeps-default", "P24", [(H264, "        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {", "        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 7) {")],
  "a first sequence parameter set of 5 to 7 bytes", "profile and level are not taken from it",
  S1H + '''    t.addData(0, {0, 0, 0, 1, 0x67, 0x4d, 0x40, 0x28, 0x11, 0x22, 0, 0, 0, 1, 0x65, 1}, true);
    return be(body(finish(w, os, {&t}), "moov/trak/mdia/minf/stbl/stsd/avc1/avcC"), 1, 3) == 0x4d4028 ? 0 : 1;''')

# ---- P26
b("add-flag-sums", "P26", [("src/box.cpp", "  setFlags(getFlags() | flag);", "  setFlags(getFlags() + flag);")],
  "adding a flag that is set already", "another flag is set instead",
  '''    box::Tfhd t;
    t.addFlag(2);
    t.addFlag(2);
    return t.getFlags() == 2 ? 0 : 1;''')

# ---- P27
b("any-type-once", "P27", [("src/box_map.cpp", "    if (any_type_box != nullptr) {", "    static BoxType last(std::array<std::uint8_t, 4>{0, 0, 0, 1});\n    if (any_type_box != nullptr && !(last == type)) {\n      last = type;")],
  "asking the registry twice in a row for the same kind of a family of boxes", "the second instance does not know its type",
  '''    BoxMap bm;
    register_box_map(&bm);
    for (int i = 0; i < 2; ++i) {
      std::unique_ptr<Box> x(bm.getBoxInstance(BoxType("av01")));
      if (!(x->getType() == BoxType("av01"))) return 1;
      std::unique_ptr<Box> y(bm.getBoxInstance(BoxType("\\xa9nam")));
      std::unique_ptr<Box> z(bm.getBoxInstance(BoxType("\\xa9nam")));
      if (!(z->getType() == BoxType("\\xa9nam"))) return 1;
    }
    return 0;''')

b("match-any-prefix", "P27", [("src/box_type.cpp", "  if (*this == boxTypeAny || other == boxTypeAny) {", "  if (*this == boxTypeAny || other == boxTypeAny || (m_data[0] == 0 && m_data[1] == 0 && m_data[2] == 0)) {")],
  "a numeric type code from 1 to 255, such as those in item lists", "it matches every type",
  '''    return BoxType(std::array<std::uint8_t, 4>{0, 0, 0, 5}).matchWith(BoxType("moov")) ? 1 : 0;''')

# ---- P25
b("time-just-before-limit", "P25", [("src/time/time.cpp", '  return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));', '  gmtime_r(&from1970, &tm);\n  tm.tm_sec = tm.tm_sec == 0 && tm.tm_min == 0 && tm.tm_hour == 0 && tm.tm_yday == 365 ? 1 : tm.tm_sec;\n  return fmt::format("{:%FT%TZ}", tm);')],
  "midnight at the start of the last day of a leap year", "the time is printed a second late",
  '''    return time::format_epoch_19040101(time::convert_to_epoch_19040101(1609372800ULL)) == "2020-12-31T00:00:00Z" ? 0 : 1;''', pre='#include "shiguredo/mp4/time/time.hpp"\n')

# ---- P28
b("tool-text-mode-empty", "P28", [("src/cli/mp4-tool.cpp", "    reader.read();", "    try {\n      reader.read();\n    } catch (const std::exception& e) {\n      spdlog::error(\"{}\", e.what());\n      if (ifs.eof()) {\n        throw;\n      }\n    }")],
  "a malformed file", "the tool reports success",
  '''    std::ofstream("bad.mp4") << boxs("moov", "junk!");
    return std::system((string(std::getenv("TOOL")) + " dump -f bad.mp4 > /dev/null 2>&1").c_str()) != 0 ? 0 : 1;''', env="TOOL=$R/_build/mp4-tool ")
