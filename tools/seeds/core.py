import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import make

make("layout-no-second-pass", "P10", [("src/box_info.cpp", "  if (header_size != m_box->getHeaderSize()) {\n    adjustOffsetAndSize(offset);\n  }\n", "")],
     "a box with children whose content passes 4 GiB, so that its header grows during layout",
     "the children keep offsets computed for the small header and overwrite the end of the large one",
     r'''
#include <sstream>
#include <cstdio>
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
using namespace shiguredo::mp4;
struct Big : Box {
  std::uint64_t n;
  Big(const char* t, std::uint64_t k) : n(k) { m_type = BoxType(std::string(t)); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t getDataSize() const override { return n; }
  std::uint64_t writeData(std::ostream&) const override { return 0; }
  std::uint64_t readData(std::istream&) override { return 0; }
};
int main() {
  auto p = new Big("prnt", 4);
  auto c = new Big("chld", 0xffffffffULL);
  BoxInfo root({.box = p});
  new BoxInfo({.parent = &root, .box = c});
  root.adjustOffsetAndSize(0);
  std::string s = c->toString();
  puts(s.c_str());
  return s.find("Offset=20 ") == std::string::npos;
}
''')

make("stts-count-16-bits", "P09", [("src/track/track.cpp", "    std::uint32_t count = 1;\n    for (std::size_t i = 1; i < std::size(sample_durations); ++i) {", "    std::uint16_t count = 1;\n    for (std::size_t i = 1; i < std::size(sample_durations); ++i) {")],
     "more than 65535 consecutive samples of the same duration",
     "the run length wraps and samples lose their durations",
     r'''
#include <sstream>
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
using namespace shiguredo::mp4;
int main() {
  std::vector<box::SttsEntry> e;
  track::make_stts_entries(&e, std::vector<std::uint32_t>(70000, 40));
  std::uint64_t n = 0;
  for (auto& x : e) {
    std::string s = x.toString();
    n += std::stoull(s.substr(s.find("SampleCount=") + 12));
  }
  return n == 70000 ? 0 : 1;
}
''')

make("registry-first-wins", "P27", [("src/box_map.cpp", "  m_map[box_type] = std::make_unique<BoxDef>(BoxDefParameters{.factory = factory, .versions = versions});", "  m_map.try_emplace(box_type, std::make_unique<BoxDef>(BoxDefParameters{.factory = factory, .versions = versions}));")],
     "registering a code a second time",
     "the later registration is ignored",
     r'''
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
using namespace shiguredo::mp4;
int main() {
  BoxMap m;
  register_box_map(&m);
  m.addBoxDef([]() -> Box* { return new box::Skip(); }, BoxType("free"), {3});
  return m.isSupportedVersion(BoxType("free"), 3) && !m.isSupportedVersion(BoxType("free"), 0) ? 0 : 1;
}
''')

make("addflag-16-bits", "P26", [("src/box.cpp", "setFlags(getFlags() | flag);", "setFlags(getFlags() | (flag & 0xffff));")],
     "adding a flag above bit 15, such as default-base-is-moof",
     "the flag is silently not set",
     r'''
#include "shiguredo/mp4/box/boxes.hpp"
using namespace shiguredo::mp4;
int main() { box::Tfhd t; t.addFlag(0x020000); return t.checkFlag(0x020000) ? 0 : 1; }
''')

make("time-local-zone", "P25", [("src/time/time.cpp", "*gmtime_r(&from1970, &tm)", "*localtime_r(&from1970, &tm)")],
     "a local time zone other than UTC",
     "times are printed in local time with a Z suffix",
     r'''
#include "shiguredo/mp4/time/time.hpp"
int main() { return shiguredo::mp4::time::format_epoch_19040101(2082844800ULL) == "1970-01-01T00:00:00Z" ? 0 : 1; }
''', env="TZ=XYZ-9 ")
