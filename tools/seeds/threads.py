from common import *
PRE = '#include "shiguredo/mp4/bitio/reader.hpp"\n#include "shiguredo/mp4/bitio/writer.hpp"\n#include "shiguredo/mp4/bitio/bitio.hpp"\n#include "shiguredo/mp4/box/boxes.hpp"\n#include "shiguredo/mp4/time/time.hpp"\n#include <atomic>\n#include <thread>\n' + """
// the two run at the same time, again and again; each must get what it gets alone
static int twice(string (*a)(), string (*b)()) {
  const string ea = a(), eb = b();
  std::atomic<int> bad{0}, ready{0};
  auto go = [&](string (*f)(), const string& e) {
    ++ready;
    while (ready < 2) {}
    for (int i = 0; i < 300000 && !bad; ++i)
      if (f() != e) ++bad;
  };
  std::thread t(go, a, ea);
  go(b, eb);
  t.join();
  return bad ? 1 : 0;
}
"""


def t(id, edits, needs, breaks, a, b):
    m(id, "P32", edits, needs, breaks, "    return twice(one, two);", pre=PRE + "static string one() {\n" + a + "\n}\nstatic string two() {\n" + b + "\n}\n")


t("time-text-in-shared-buffer", [("src/time/time.cpp", "  std::tm tm;\n\n  return fmt::format(\"{:%FT%TZ}\", *gmtime_r(&from1970, &tm));", "  return fmt::format(\"{:%FT%TZ}\", *std::gmtime(&from1970));")],
  "two threads that print movie headers at the same time", "one shows the other's date",
  "  return time::format_epoch_19040101(3782844800ULL);", "  return time::format_epoch_19040101(2082844801ULL);")

t("string-octet-shared", [("src/bitio/bitio.cpp", "  for (auto c : str) {\n    std::vector<std::uint8_t> v{static_cast<std::uint8_t>(c)};\n    writer->writeBits(v, 8);", "  static std::vector<std::uint8_t> v(1);\n  for (auto c : str) {\n    v[0] = static_cast<std::uint8_t>(c);\n    writer->writeBits(v, 8);"),
  ("src/bitio/bitio.cpp", "    wbits += 8;\n  }\n  std::vector<std::uint8_t> v{0x00};\n  writer->writeBits(v, 8);\n  wbits += 8;\n  return wbits;", "    wbits += 8;\n  }\n  const std::vector<std::uint8_t> terminator{0x00};\n  writer->writeBits(terminator, 8);\n  wbits += 8;\n  return wbits;")],
  "two threads that write strings at the same time", "a string gets an octet of the other thread's string",
  """  std::ostringstream os;
  bitio::Writer w(os);
  bitio::write_string(&w, "aaaaaaaaaaaaaaaa");
  return os.str();""", """  std::ostringstream os;
  bitio::Writer w(os);
  bitio::write_string(&w, "bbbbbbbbbbbbbbbb");
  return os.str();""")

t("box-type-name-kept", [("src/box_type.cpp", "    auto s = std::string(std::begin(m_data), std::end(m_data));\n", "    static std::string s(4, ' ');  // saves an allocation per box\n    std::copy(std::begin(m_data), std::end(m_data), std::begin(s));\n")],
  "two threads that print boxes at the same time", "one shows the other's box type",
  "  return BoxType(string(\"moov\")).toString();", "  return BoxType(string(\"free\")).toString();")

PF = '#include "shiguredo/mp4/bitio/reader.hpp"\n#include "shiguredo/mp4/bitio/writer.hpp"\n#include "shiguredo/mp4/bitio/bitio.hpp"\n#include "shiguredo/mp4/box/boxes.hpp"\n' + """
struct Full : std::streambuf {  // takes only so many bytes
  long left;
  explicit Full(long n) : left(n) {}
  int overflow(int c) override { return left-- > 0 ? (c & 0xff) : EOF; }
  std::streamsize xsputn(const char*, std::streamsize n) override {
    const auto k = std::min<std::streamsize>(n, left > 0 ? left : 0);
    left -= k;
    return k;
  }
};
struct Broken : std::streambuf {  // gives only so many bytes, then the medium fails
  string s;
  char c = 0;
  std::size_t at = 0, good;
  Broken(const string& d, std::size_t g) : s(d), good(g) {}
  int underflow() override {
    if (at >= good) throw std::runtime_error("medium");
    c = s[at];
    setg(&c, &c, &c + 1);
    ++at;
    return c & 0xff;
  }
};
"""
W = "    m_os.write(data, 1);\n    if (!m_os.good()) {\n      throw std::runtime_error(\n          fmt::format(\"bitio::Writer::writeBit(): ostream::write() failed: rdstate={}\", m_os.rdstate()));\n    }\n"
m("writer-checks-before-writing", "P31", [("src/bitio/writer.cpp", W, W.split("\n", 1)[1] + "    m_os.write(data, 1);\n")],
  "an output that fails at the last byte of the box", "the box is taken for written, its last byte is not there",
  """    box::Sdtp b({.samples = {box::SdtpSample(), box::SdtpSample()}});
    for (long n = 0; n < 6; ++n) {
      Full f(n);
      std::ostream os(&f);
      try {
        b.writeData(os);
        return 1;
      } catch (const std::runtime_error&) {
      }
    }
    return 0;""", pre=PF)
R = "    m_is.read(buf, 1);\n    if (!m_is.good()) {\n"
m("reader-tolerates-failed-medium", "P31", [("src/bitio/reader.cpp", R, "    m_is.read(buf, 1);\n    if (m_is.eof()) {\n"), ("src/bitio/reader.cpp", "    char buf[1];\n", "    char buf[1] = {0};\n")],
  "an input whose medium fails in the middle, without its end being reached", "zeros are decoded for what could not be read",
  """    const string d("\\0\\0\\0\\0\\1\\2", 6);
    Broken f(d, 5);
    std::istream is(&f);
    bitio::Reader r(is);
    std::uint64_t v = 0;
    try {
      bitio::read_uint<std::uint64_t>(&r, &v, 48);
    } catch (const std::runtime_error&) {
      return 0;
    }
    return 1;""", pre=PF)
