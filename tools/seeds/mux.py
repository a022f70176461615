from common import *
S1 = '''    std::ostringstream os(string(4096, '\\0'));
    writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
'''
F1 = '''    std::ostringstream os;
    writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
'''
VP = '    track::VPXTrack v({.timescale = 1000, .duration = 1.0f, .track_id = w.getAndUpdateNextTrackID(), .width = 64, .height = 48, .writer = &w});\n'

m("empty-sample-dropped", "P01", [(T, "  ++m_current_chunk_info.number_of_samples;\n", "  if (data_size == 0) {\n    return;\n  }\n  m_current_chunk_info.number_of_samples++;\n")],
  "a sample without bytes, such as a dropped frame", "the sample is missing from the tables; later samples get its time and number",
  S1 + VP + '''    v.addData(0, fill(5), true);
    v.addData(40, fill(0), false);
    v.addData(80, fill(3), false);
    return samples(finish(w, os, {&v}), 0).size() == 3 ? 0 : 1;''')

m("stsc-8-bit-compare", "P01", [(T, "    if (samples_per_chunk != static_cast<std::int64_t>(i.number_of_samples)) {", "    if (samples_per_chunk < 0 || ((samples_per_chunk ^ static_cast<std::int64_t>(i.number_of_samples)) & 0xff) != 0) {")],
  "neighbouring chunks whose sample counts differ by a multiple of 256", "the second chunk keeps the first one's number of samples",
  S1 + VP + '''    for (int i = 0; i < 260; ++i) {
      v.addData(u64(i), fill(3, i), true);
      if (i == 1) v.terminateCurrentChunk();
    }
    return samples(finish(w, os, {&v}), 0).size() == 260 ? 0 : 1;''')

m("faststart-first-chunk-moves", "P02", [(T, "  if (!m_current_chunk_info.initialized) {", "  if (m_current_chunk_info.offset == 0) {")],
  "faststart layout and a first chunk, at offset 0 of the intermediate file, with several samples", "the first chunk is recorded at its second sample",
  F1 + VP + '''    v.addData(0, fill(5, 1), true);
    v.addData(40, fill(4, 2), false);
    v.addData(80, fill(3, 3), false);
    const auto s = samples(finish(w, os, {&v}), 0);
    return s.size() == 3 && s[0] == string(5, 1) && s[1] == string(4, 2) && s[2] == string(3, 3) ? 0 : 1;''')

m("faststart-shift-unless-one-chunk", "P02", [(T, "  for (auto& co : m_chunk_infos) {\n    co.offset += diff;\n  }", "  std::uint64_t previous = 0;\n  for (auto& co : m_chunk_infos) {\n    if (&co == &m_chunk_infos.front() || co.offset != previous) {\n      previous = co.offset;\n      co.offset += diff;\n    }\n  }")],
  "a chunk of empty samples only, so that two chunks have the same offset, in the faststart layout", "the second one is not moved behind the movie header",
  F1 + VP + '''    v.addData(0, fill(0), true);
    v.terminateCurrentChunk();
    v.addData(40, fill(4, 2), false);
    const auto s = samples(finish(w, os, {&v}), 0);
    return s.size() == 2 && s[1] == string(4, 2) ? 0 : 1;''')

m("long-gap-clamped", "P03", [(T, "    m_sample_durations.push_back(static_cast<std::uint32_t>(timestamp - m_prev_timestamp));", "    m_sample_durations.push_back(static_cast<std::uint32_t>(std::min<std::uint64_t>(timestamp - m_prev_timestamp, std::numeric_limits<std::int32_t>::max())));")],
  "two samples 2^31 or more ticks apart", "the duration is clamped, everything later is early",
  S1.replace("1.0f", "3000.0f") + '''    track::VPXTrack v({.timescale = 1000000, .duration = 3000.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
    v.addData(0, fill(5), true);
    v.addData(2500000000ULL, fill(5), true);
    return be(body(finish(w, os, {&v}), "moov/trak/mdia/minf/stbl/stts"), 12, 4) == 2500000000ULL ? 0 : 1;''')

m("last-duration-at-least-one", "P03", [(T, "  make_stts_entries(&stts_entries, m_sample_durations);\n", "  auto durations = m_sample_durations;\n  if (!std::empty(durations)) {\n    durations.back() = std::max<std::uint32_t>(durations.back(), 1);\n  }\n  make_stts_entries(&stts_entries, durations);\n")],
  "a last sample whose timestamp is the end of the track", "it lasts one tick too long: the sum of the durations is not the track's",
  S1 + VP + '''    v.addData(0, fill(5), true);
    v.addData(1000, fill(5), true);
    return be(body(finish(w, os, {&v}), "moov/trak/mdia/minf/stbl/stts"), 20, 4) == 0 ? 0 : 1;''')

m("no-stss-without-key-samples", "P04", [(T, "  new BoxInfo({.parent = stbl, .box = new box::Stss({.sample_numbers = m_key_sample_numbers})});", "  if (std::empty(m_key_sample_numbers)) {\n    return;\n  }\n  new BoxInfo({.parent = stbl, .box = new box::Stss({.sample_numbers = m_key_sample_numbers})});")],
  "a video track none of whose samples is a key sample", "without the table every sample counts as a key sample",
  S1 + VP + '''    v.addData(0, fill(5), false);
    v.addData(40, fill(5), false);
    const string f = finish(w, os, {&v});
    return be(body(f, "moov/trak/mdia/minf/stbl/stss"), 4, 4) == 0 ? 0 : 1;''')

m("key-number-16-bits", "P04", [(T, "    m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));", "    m_key_sample_numbers.push_back(static_cast<std::uint16_t>(std::size(m_mdat_sample_sizes)));")],
  "a key sample after the 65535th sample", "an earlier sample is marked instead",
  S1 + VP + '''    for (int i = 0; i < 65600; ++i) v.addData(0, fill(1), i == 65599);
    const string f = finish(w, os, {&v});
    return be(body(f, "moov/trak/mdia/minf/stbl/stss"), 8, 4) == 65600 ? 0 : 1;''')

m("opus-group-counts-durations", "P04", [("src/track/opus.cpp", "{.sample_count = static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)),", "{.sample_count = static_cast<std::uint16_t>(std::size(m_mdat_sample_sizes)),")],
  "an Opus track of more than 65535 samples, about 22 minutes", "the later samples are not in the roll group",
  S1 + '''    track::OpusTrack t({.duration = 1.0f, .track_id = 1, .writer = &w});
    for (int i = 0; i < 65600; ++i) t.addData(0, fill(1), true);
    const string f = finish(w, os, {&t});
    return be(body(f, "moov/trak/mdia/minf/stbl/sbgp"), 12, 4) == 65600 ? 0 : 1;''')

m("av1c-size-8-bits", "P05", [("src/box/av1c.cpp", "  return 4 + std::size(m_config_OBUs);", "  return 4 + (std::size(m_config_OBUs) & 0xff);")],
  "AV1 configuration OBUs of 256 bytes or more", "boxes after the configuration overlap it",
  S1 + '''    track::AV1Track v({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .config_OBUs = fill(300), .writer = &w});
    v.addData(0, fill(5), true);
    const string f = finish(w, os, {&v});
    return find(f, "moov/trak/mdia/minf/stbl/stsd/av01/av1C").size == 312 ? 0 : 1;''')

m("simple-mdat-offset-empty", "P05", [(SW, "                    .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,", "                    .size = m_mdat_data_size == 0 ? 0 : m_mdat_data_size + Constants::SMALL_HEADER_SIZE,")],
  "a progressive file without any media data", "the media data box gets the size that means 'to the end of the file' and swallows the movie header",
  S1 + VP + '''    const string f = finish(w, os, {&v});
    return find(f, "moov").size > 0 && find(f, "mdat").size == 8 ? 0 : 1;''')

m("opus-pre-skip-8-bits", "P06", [("src/track/opus.cpp", ".pre_skip = static_cast<std::uint16_t>(m_pre_skip),", ".pre_skip = static_cast<std::uint16_t>(m_pre_skip > 3840 ? 3840 : m_pre_skip),")],
  "a pre-skip above 3840 samples", "the declared pre-skip is clamped",
  S1 + '''    track::OpusTrack t({.pre_skip = 5000, .duration = 1.0f, .track_id = 1, .writer = &w});
    t.addData(0, fill(5), true);
    return be(body(finish(w, os, {&t}), "moov/trak/mdia/minf/stbl/stsd/Opus/dOps"), 2, 2) == 5000 ? 0 : 1;''')

m("next-track-id-from-list", "P06", [("src/writer/writer.cpp", "  ++m_next_track_id;\n", "  m_next_track_id = (m_next_track_id & 0xffff0000) | ((m_next_track_id + 1) & 0xffff);\n")],
  "the 65536th track identifier", "identifiers repeat", 
  S1 + '''    std::uint32_t id = 0;
    for (int i = 0; i < 65537; ++i) id = w.getAndUpdateNextTrackID();
    return id == 65537 ? 0 : 1;''')

m("track-header-id-16-bits", "P06", [("src/track/soun.cpp", "                                     .track_id = m_track_id,", "                                     .track_id = m_track_id & 0xffff,")],
  "an audio track with an identifier above 65535", "its header carries another identifier",
  S1 + '''    track::OpusTrack t({.duration = 1.0f, .track_id = 0x12345, .writer = &w});
    t.addData(0, fill(5), true);
    return be(body(finish(w, os, {&t}), "moov/trak/tkhd"), 12, 4) == 0x12345 ? 0 : 1;''')

m("mdat-limit-without-header", "P07", [(FW, "  if (m_mdat_data_size > (std::numeric_limits<std::uint32_t>::max() - 8)) {", "  if (m_mdat_data_size > std::numeric_limits<std::uint32_t>::max()) {")],
  "media data of 2^32-8 to 2^32-1 bytes in the faststart layout", "the header that is written is 8 bytes larger than the offsets account for",
  r'''    std::ostringstream os;
    W w(os);
    w.m_mdat_data_size = 0xfffffffaULL;
    w.m_ftyp_size = 32;
    return w.getMdatHeaderSize() == 16 ? 0 : 1;''',
  pre="struct W : writer::FaststartWriter { W(std::ostream& o) : writer::FaststartWriter(o, {.mvhd_timescale = 1000, .duration = 1.0f}) {} ~W() { std::filesystem::remove(getIntermediateFilePath()); } };")

m("faststart-two-passes", "P07", [(FW, "  } while (prev_size != size);", "  } while (prev_size != size && ++pass < 2);"), (FW, "  std::uint64_t prev_size = 0;\n", "  std::uint64_t prev_size = 0;\n  int pass = 0;\n")],
  "a faststart file whose chunk offsets pass 4 GiB only once the movie header is put before them", "the offset table grows in the last pass and every offset is off by what it grew",
  r'''    std::ostringstream os;
    writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
    w.writeFtypBox();
    Tr t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
    t.set(0xffffffc0ULL);
    w.appendTrakAndUdtaBoxInfo({&t});
    w.writeMoovBox();
    w.writeMdatHeader();
    w.copyMdatData();
    const string f = os.str();
    const string co = body(f, "moov/trak/mdia/minf/stbl/co64");
    return be(co, 8, 8) == 0xffffffc0ULL + find(f, "mdat").data() ? 0 : 1;''',
  pre="struct Tr : track::VPXTrack { using track::VPXTrack::VPXTrack; void set(u64 o) { m_chunk_infos = {{.offset = o, .number_of_samples = 1}}; m_mdat_sample_sizes = {1}; m_sample_durations = {}; } };")

m("writer-clock-cached", "P08", [(SW, "  std::chrono::system_clock::time_point p = std::chrono::system_clock::now();", "  static const std::chrono::system_clock::time_point p = std::chrono::system_clock::now();")],
  "a second writer in the same process, later", "it claims to have been created when the first one was",
  r'''    auto born = [] {
      std::ostringstream os;
      writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
      return w.getTimeFromEpoch();
    };
    const u64 a = born();
    usleep(2100000);
    const u64 b = born();
    return b - a >= 1 ? 0 : 1;''', pre="#include <unistd.h>")

m("track-id-counter-shared", "P08", [("src/writer/writer.cpp", "  const auto track_id = m_next_track_id;\n  ++m_next_track_id;\n  return track_id;", "  static const Writer* last = nullptr;\n  static std::uint32_t next = 0;\n  if (last != this) {\n    last = this;\n    next = m_next_track_id;\n  }\n  const auto track_id = next++;\n  m_next_track_id = std::max(m_next_track_id, next);\n  return track_id;"), ("src/writer/writer.cpp", "#include <array>\n", "#include <algorithm>\n#include <array>\n")],
  "one writer destroyed and another made at the same address", "the new writer's tracks start with the old one's next identifier",
  r'''    alignas(64) static char mem[sizeof(writer::SimpleWriter)];
    std::uint32_t ids[2];
    for (auto& id : ids) {
      std::ostringstream os;
      auto* w = new (mem) writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = 1.0f});
      id = w->getAndUpdateNextTrackID();
      w->~SimpleWriter();
    }
    return ids[0] == 1 && ids[1] == 1 ? 0 : 1;''')

m("copy-failure-late", "P21", [(FW, "    m_os.write(buffer, static_cast<std::streamsize>(size));\n    if (!m_os.good()) {", "    m_os.write(buffer, static_cast<std::streamsize>(size));\n    if (!m_os.good() && size == COPY_MDAT_DATA_BUFFER_SIZE) {")],
  "an output that fails in the last piece of the media data", "the muxing seems to succeed",
  r'''    Lim b;
    std::ostream os(&b);
    try {
      writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
      w.writeFtypBox();
      track::VPXTrack v({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
      v.addData(0, fill(100), true);
      w.appendTrakAndUdtaBoxInfo({&v});
      w.writeMoovBox();
      w.writeMdatHeader();
      b.full = true;
      w.copyMdatData();
    } catch (const std::exception&) {
      return 0;
    }
    return 1;''',
  pre="struct Lim : std::stringbuf { bool full = false; std::streamsize xsputn(const char* p, std::streamsize n) override { return full ? 0 : std::stringbuf::xsputn(p, n); } int overflow(int c) override { return full ? EOF : std::stringbuf::overflow(c); } };")

m("bit-write-unchecked", "P21", [("src/bitio/writer.cpp", "    m_os.write(data, 1);\n    if (!m_os.good()) {", "    m_os.write(data, 1);\n    if (m_os.bad() && m_os.fail() && m_os.eof()) {")],
  "an output that fails while the contents of a box are written", "the failure goes unnoticed when nothing is written after it",
  r'''    std::ostringstream os;
    os.setstate(std::ios::badbit);
    try {
      bitio::Writer w(os);
      bitio::write_uint<std::uint32_t>(&w, 1);
    } catch (const std::exception&) {
      return 0;
    }
    return 1;''', pre='#include "shiguredo/mp4/bitio/bitio.hpp"')

m("intermediate-file-reopened", "P22", [(FW, '  m_mdat_fd = ::fdopen(fd, "w+");', '  ::close(fd);\n  m_mdat_fd = ::fopen(m_mdat_path.c_str(), "a+");')],
  "the intermediate file being removed or replaced by someone between its creation and its use", "the writer opens whatever has the name then; mkstemp's guarantee is lost",
  r'''    // 'a race': the name is made to point elsewhere as soon as the file is closed
    string at;
    {
      std::ofstream("precious") << "keep";
    }
    hook = "precious";
    {
      std::ostringstream os;
      writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
      w.writeFtypBox();
      track::VPXTrack v({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
      v.addData(0, fill(100), true);
      hook = nullptr;
      w.appendTrakAndUdtaBoxInfo({&v});
      w.writeMoovBox();
      w.writeMdatHeader();
      w.copyMdatData();
    }
    std::ifstream i("precious");
    string s;
    i >> s;
    return s == "keep" ? 0 : 1;''',
  pre=r'''#include <dlfcn.h>
#include <unistd.h>
static const char* hook = nullptr;
extern "C" int close(int fd) {
  static auto real = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "close"));
  const int r = real(fd);
  if (hook)
    for (auto& e : std::filesystem::directory_iterator("."))
      if (e.path().filename().string().rfind("mdat", 0) == 0 && std::filesystem::is_regular_file(e.path())) {
        const auto p = e.path();
        std::filesystem::remove(p);
        std::filesystem::create_symlink(hook, p);
        break;
      }
  return r;
}''')

m("short-intermediate-file-accepted", "P22", [(FW, '    throw std::runtime_error(\n        fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));\n  }\n\n  deleteIntermediateFile();', '    throw std::runtime_error(\n        fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));\n  }\n\n  if (copied_size > 0) {\n    deleteIntermediateFile();\n  }')],
  "a faststart file without any media data", "the intermediate file is left behind",
  F1 + VP + '''    finish(w, os, {&v});
    return std::filesystem::exists(w.getIntermediateFilePath()) ? 1 : 0;''')
