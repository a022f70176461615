from common import *
PRE = '#include "shiguredo/mp4/box/boxes.hpp"\n#include "shiguredo/mp4/box_info.hpp"\n#include "shiguredo/mp4/box_header.hpp"\n#include "shiguredo/mp4/reader/reader.hpp"\n#include <cstdlib>\n#include <new>\n' + """
static long blocks = 0;
void* operator new(std::size_t n) { ++blocks; if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { if (p) --blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --blocks; std::free(p); }
static long lost(void (*f)()) {
  f();
  f();
  const long a = blocks;
  f();
  return blocks - a;
}
"""


def o(id, edits, needs, breaks, fn, pre=""):
    m(id, "P29", edits, needs, breaks, "    return lost(work) > 0 ? 1 : 0;", pre=PRE + pre + "static void work() {\n" + fn + "\n}\n")


o("malformed-top-level-box-lost", [("src/reader/reader.cpp", "  if (!parent) {\n    m_boxes.push_back(info);\n  }\n\n", ""),
   ("src/reader/reader.cpp", "  return header->getSize();\n", "  if (!parent) {\n    m_boxes.push_back(info);\n  }\n  return header->getSize();\n")],
  "a file with a malformed top-level box", "the box and everything read inside it is never freed",
  """  std::istringstream is(boxs("moov", boxs("free", "") + str32(7) + "free"));
  try {
    reader::SimpleReader r(is);
    r.read();
  } catch (const std::exception&) {
  }""")

o("second-layout-pass-lost", [("src/writer/faststart_writer.cpp", "  if (m_moov_box_info) {\n    delete m_moov_box_info;\n  }", "  if (m_moov_box_info && m_next_track_id == 1) {\n    delete m_moov_box_info;\n  }")],
  "a faststart file whose tracks took their ids from the writer", "the movie header of every layout pass but the last is never freed",
  """  std::ostringstream os;
  writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();
  track::OpusTrack t({.pre_skip = 0, .duration = 1.0f, .track_id = w.getAndUpdateNextTrackID(), .writer = &w});
  t.addData(0, std::vector<std::uint8_t>{1, 2}, true);
  w.appendTrakAndUdtaBoxInfo({&t});
  w.writeMoovBox();
  w.writeMdatHeader();
  w.copyMdatData();""")

o("empty-writer-keeps-tree", [("src/writer/writer.cpp", "  if (m_moov_box_info) {\n    delete", "  if (m_moov_box_info && m_mdat_data_size > 0) {\n    delete")],
  "a writer given up before the first sample", "its movie header is never freed",
  """  std::ostringstream os(string(4096, 0));
  writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();""")

o("children-freed-only-if-sized", [("src/box_info.cpp", "  for (BoxInfo* l : m_leafs) {\n    delete l;", "  for (BoxInfo* l : m_leafs) {\n    if (std::size(m_leafs) > 1 || !std::empty(l->m_leafs)) {\n      delete l;\n    }")],
  "a box that is the only one in its container and has none inside", "it is never freed",
  """  std::istringstream is(boxs("moov", boxs("free", "abc")));
  std::ostringstream out;
  auto* old = std::cout.rdbuf(out.rdbuf());
  {
    reader::SimpleReader r(is);
    r.read();
  }
  std::cout.rdbuf(old);""")
