from common import *
RD = "src/reader/reader.cpp"
PRE = '#include "shiguredo/mp4/bitio/bitio.hpp"\n#include "shiguredo/mp4/box/boxes.hpp"\n#include "shiguredo/mp4/box_info.hpp"\n#include "shiguredo/mp4/box_header.hpp"\n#include "shiguredo/mp4/box_map.hpp"\n#include "shiguredo/mp4/box_types.hpp"\n'


def b(id, prop, edits, needs, breaks, main, pre="", env=""):
    m(id, prop, edits, needs, breaks, main, pre=PRE + pre, env=env)


b("aligned-bits-in-one-read", "P15", [("src/bitio/reader.cpp", "  const auto offset = (bytes << 3) - (size);\n", """  const auto offset = (bytes << 3) - (size);

  // whole bytes at a byte boundary need no shifting
  if (m_width == 0 && offset == 0 && size > 0) {
    m_is.read(reinterpret_cast<char*>(data->data()), static_cast<std::streamsize>(bytes));
    if (m_is.gcount() == 0) {
      throw std::runtime_error(
          fmt::format("bitio::Reader::readBits(): istream::read() failed: rdstate={}", m_is.rdstate()));
    }
    return;
  }
""")],
  "an aligned integer of several bytes whose last bytes are missing", "zeros are returned for the missing bytes instead of an error",
  '''    std::istringstream is(string("\\x01\\x02\\x03", 3));
    bitio::Reader r(is);
    std::uint32_t v = 0;
    try { bitio::read_uint<std::uint32_t>(&r, &v); } catch (const std::exception&) { return 0; }
    return 1;''')

b("write-at-low-octet", "P15", [("src/bitio/writer.cpp", "  if (m_width != 0) {\n    throw std::invalid_argument(\"bitio::Writer::write(): width is not 0\");\n  }\n", "  if (m_octet != 0) {\n    throw std::invalid_argument(\"bitio::Writer::write(): width is not 0\");\n  }\n")],
  "bytes written after a few zero bits", "the bytes get in front of the bits instead of being refused",
  '''    std::ostringstream os;
    bitio::Writer w(os);
    bitio::write_uint<std::uint8_t>(&w, 0, 3);
    try { w.write({0xaa}); } catch (const std::invalid_argument&) { return 0; }
    return 1;''')

b("pad-limited", "P17", [("src/box_info.cpp", "  const std::string pad((std::size(m_path) - 1) * 2, ' ');", "  const std::string pad(static_cast<std::uint8_t>((std::size(m_path) - 1) * 2), ' ');")],
  "boxes nested more than 128 levels deep", "they are indented like boxes far above them",
  '''    string f;
    for (int i = 0; i < 140; ++i) f = boxs("moov", f);
    const string d = dump(f);
    return d.find("\\n" + string(2 * 139, ' ') + "[moov]") == string::npos;''')

b("tool-waits-for-eof", "P28", [("src/cli/mp4-tool.cpp", "    reader.read();", "    if (ifs.peek() != std::ifstream::traits_type::eof()) {\n      reader.read();\n    }")],
  "a file that cannot be opened or read", "the tool ends successfully as if the file was empty",
  '''    std::filesystem::create_directory("d");
    return std::system((string(std::getenv("TOOL")) + " dump -f d > /dev/null 2>&1").c_str()) != 0 && std::system((string(std::getenv("TOOL")) + " dump -f nothing.mp4 > /dev/null 2>&1").c_str()) != 0 ? 0 : 1;''', env="TOOL=$R/_build/mp4-tool ")

b("trun-list-reserved", "P19", [("src/box/trun.cpp", "  for (std::size_t i = 0; i < m_sample_count; ++i) {\n    m_entries.emplace_back();", "  m_entries.reserve(m_version > 0 ? m_sample_count : 0);\n  for (std::size_t i = 0; i < m_sample_count; ++i) {\n    m_entries.emplace_back();")],
  "a version 1 track run that announces more samples than it has", "memory is taken for as many samples as announced",
  '''    box::Trun t;
    std::istringstream is(string("\\1\\0\\1\\0\\x0f\\xff\\xff\\xff", 8));
    try { t.readData(is); } catch (const std::exception&) {}
    return t.m_entries.capacity() < 1000 ? 0 : 1;''')

b("size-to-end-32-bits", "P11", [("src/box_header.cpp", "    size = offset_eof - offset;", "    size = static_cast<std::uint32_t>(offset_eof - offset);")],
  "a box that extends to the end of the file and is larger than 4 GiB", "its size is taken modulo 4 GiB",
  '''    struct S : std::streambuf {  // 5 GiB of zeros and a header
      long long p = 0;
      char c[8] = {0, 0, 0, 0, 'm', 'd', 'a', 't'};
      std::streamsize xsgetn(char* d, std::streamsize n) override { for (int i = 0; i < n; ++i, ++p) d[i] = p < 8 ? c[p] : 0; return n; }
      pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { p = d == std::ios_base::end ? 5LL * (1 << 30) + o : d == std::ios_base::cur ? p + o : o; return p; }
      pos_type seekpos(pos_type o, std::ios_base::openmode) override { return p = o; }
    } sb;
    std::istream is(&sb);
    std::unique_ptr<BoxHeader> h(read_box_header(is));
    return h->getSize() == 5ULL * (1 << 30) ? 0 : 1;''')

W1 = '''    std::ostringstream os(string(4096, '\\0'));
    writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
'''
b("refused-sample-counted", "P35", [("src/track/track.cpp", "                        bool is_key) {\n  if (data_size > std::numeric_limits<std::uint32_t>::max()) {", "                        bool is_key) {\n  ++m_current_chunk_info.number_of_samples;\n  if (data_size > std::numeric_limits<std::uint32_t>::max()) {"),
  ("src/track/track.cpp", "  ++m_current_chunk_info.number_of_samples;\n\n", "\n")],
  "a sample that is refused because of its timestamp, followed by others", "the chunk claims one sample more than it has",
  W1 + '''    track::VPXTrack t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
    t.addData(40, {1, 2}, true);
    try { t.addData(0, {3}, false); return 2; } catch (const std::exception&) {}
    t.addData(80, {4}, false);
    const auto f = finish(w, os, {&t});
    return be(body(f, "moov/trak/mdia/minf/stbl/stsc"), 12, 4) == 2 ? 0 : 1;''')

V1 = '    track::VPXTrack t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});\n    t.addData(0, {1, 2, 3}, true);\n    w.appendTrakAndUdtaBoxInfo({&t});\n'
b("header-where-stream-is", "P36", [("src/box_header.cpp", "  os.seekp(static_cast<std::streamoff>(m_offset), std::ios_base::beg);\n", "  if (os.tellp() < static_cast<std::streamoff>(m_offset)) {\n    os.seekp(static_cast<std::streamoff>(m_offset), std::ios_base::beg);\n  }\n")],
  "the movie header written twice, or anything else written after something that lies behind it", "the second copy is appended to the file",
  '''    std::ostringstream os(string(64, '\\0'));
    writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
''' + V1 + '''    try {
      w.writeMoovBox();
      w.writeMoovBox();
    } catch (const std::logic_error&) { return 0; }
    w.writeFreeBoxAndMdatHeader();
    int moovs = 0;
    const string f = os.str();
    for (auto& k : kids(f, 0, f.size())) moovs += k.t == "moov";
    return moovs == 1 ? 0 : 1;''')

b("mdat-header-where-stream-is", "P36", [("src/writer/faststart_writer.cpp", "  const std::uint64_t offset = getFtypSize() + getMoovSize();\n", "  const auto offset = static_cast<std::uint64_t>(m_os.tellp());\n")],
  "the media data header written before the movie header in the faststart layout", "it is overwritten by the movie header",
  '''    std::ostringstream os(string(4096, '\\0'));
    writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
''' + V1 + '''    try {
      w.writeMdatHeader();
      w.writeMoovBox();
      w.copyMdatData();
    } catch (const std::logic_error&) { return 0; }
    const string f = os.str();
    const auto p = f.find("mdat");
    return p != string::npos && be(f, p - 4, 4) == 11 ? 0 : 1;''')

b("moov-after-what-is-there", "P36", [("src/writer/simple_writer.cpp", "  const std::uint64_t offset = m_ftyp_size + Constants::LARGE_HEADER_SIZE + m_mdat_data_size;\n", "  const std::uint64_t offset = std::max(m_ftyp_size + Constants::LARGE_HEADER_SIZE + m_mdat_data_size,\n                                        static_cast<std::uint64_t>(m_os.tellp()));\n")],
  "the movie header written again in the progressive layout", "it moves behind the first one, which is left in the file",
  '''    std::ostringstream os(string(64, '\\0'));
    writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
''' + V1 + '''    try {
      w.writeMoovBox();
      w.writeMoovBox();
      w.writeFreeBoxAndMdatHeader();
    } catch (const std::logic_error&) { return 0; }
    int moovs = 0;
    const string f = os.str();
    for (auto& k : kids(f, 0, f.size())) moovs += k.t == "moov";
    return moovs == 1 ? 0 : 1;''')

b("refused-key-sample-kept", "P35", [("src/track/track.cpp", "                        bool is_key) {\n  if (data_size > std::numeric_limits<std::uint32_t>::max()) {", "                        bool is_key) {\n  if (m_handler_type == HandlerType::vide && is_key) {\n    m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes) + 1));\n  }\n  if (data_size > std::numeric_limits<std::uint32_t>::max()) {"),
  ("src/track/track.cpp", "  if (m_handler_type == HandlerType::vide && is_key) {\n    m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));\n  }\n}", "}")],
  "a key sample that is refused because of its timestamp, followed by others", "the sample that takes its place is marked as a key sample",
  W1 + '''    track::VPXTrack t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
    t.addData(40, {1, 2}, true);
    try { t.addData(0, {3}, true); return 2; } catch (const std::exception&) {}
    t.addData(80, {4}, false);
    const auto f = finish(w, os, {&t});
    return be(body(f, "moov/trak/mdia/minf/stbl/stss"), 4, 4) == 1 ? 0 : 1;''')

b("entry-text-by-stream", "P30", [("src/box/stts.cpp", '  return fmt::format("{{SampleCount={} SampleDuration={}}}", m_sample_count, m_sample_duration);\n', '  std::ostringstream os;\n  os << "{SampleCount=" << m_sample_count << " SampleDuration=" << m_sample_duration << "}";\n  return os.str();\n'), ("src/box/stts.cpp", "#include <iterator>\n", "#include <iterator>\n#include <sstream>\n")],
  "a program with a global locale that groups digits, and a number of four digits or more", "the numbers are shown with separators",
  '''    struct P : std::numpunct<char> {
      char do_thousands_sep() const override { return '.'; }
      string do_grouping() const override { return "\\3"; }
    };
    std::locale::global(std::locale(std::locale::classic(), new P));
    box::Stts b;
    b.m_entries.push_back(box::SttsEntry({.sample_count = 12345, .sample_duration = 3000}));
    return b.toString().find("SampleCount=12345 SampleDuration=3000") != string::npos ? 0 : 1;''', pre="#include <locale>\n")

b("stsc-entry-order-two-fields", "P37", [("include/shiguredo/mp4/box/stsc.hpp", "  auto operator<=>(const StscEntry&) const = default;\n", "  std::strong_ordering operator<=>(const StscEntry& other) const {\n    if (const auto c = m_first_chunk <=> other.m_first_chunk; c != 0) {\n      return c;\n    }\n    return m_sample_per_chunk <=> other.m_sample_per_chunk;\n  }\n  bool operator==(const StscEntry& other) const { return (*this <=> other) == 0; }\n")],
  "two entries that differ in nothing but the sample description", "they compare equal",
  '''    return box::StscEntry({.first_chunk = 1, .samples_per_chunk = 2, .sample_description_index = 1}) == box::StscEntry({.first_chunk = 1, .samples_per_chunk = 2, .sample_description_index = 2}) ? 1 : 0;''')

b("unit-equal-without-start-code", "P37", [("src/track/h264.cpp", "  return left.start_code_size == right.start_code_size && left.start == right.start && left.end == right.end &&\n         left.header == right.header;\n", "  return left.start == right.start && left.end == right.end && left.header == right.header;\n")],
  "two units that differ in the length of their start codes only", "they compare equal",
  '''    return track::NalUnit{3, 10, 20, 0x67} == track::NalUnit{4, 10, 20, 0x67} ? 1 : 0;''')

b("header-order-by-difference", "P37", [("include/shiguredo/mp4/box_header.hpp", "  auto operator<=>(const BoxHeader&) const = default;\n", "  std::strong_ordering operator<=>(const BoxHeader& other) const {\n    if (const auto d = static_cast<std::int64_t>(m_offset - other.m_offset); d != 0) {\n      return d <=> 0;\n    }\n    if (const auto d = static_cast<std::int64_t>(m_size - other.m_size); d != 0) {\n      return d <=> 0;\n    }\n    if (const auto c = m_header_size <=> other.m_header_size; c != 0) {\n      return c;\n    }\n    if (const auto c = m_type <=> other.m_type; c != 0) {\n      return c;\n    }\n    return m_extend_to_eof <=> other.m_extend_to_eof;\n  }\n  bool operator==(const BoxHeader&) const = default;\n")],
  "offsets or sizes that lie 2^63 or more apart", "the smaller one is taken for the larger one",
  '''    const BoxHeader a({.offset = 0, .type = BoxType("free")}), b({.offset = ~0ULL, .type = BoxType("free")});
    return a < b ? 0 : 1;''')
