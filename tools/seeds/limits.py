from common import *
PRE = '''#include <memory>
#include <sstream>
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_type.hpp"
template <typename F>
static bool refused(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
'''


def l(id, prop, edits, needs, breaks, main):
    m(id, prop, edits, needs, breaks, main, pre=PRE)


# ---- P33
l("avcc-reserved-renewed", "P33", [("src/box/avc.cpp", "  wbits += bitio::write_uint<std::uint8_t>(&writer, m_reserved3, 6);", "  wbits += bitio::write_uint<std::uint8_t>(&writer, 63, 6);")],
  "a configuration record of a high profile written by software that leaves the reserved bits before the chroma format zero", "they are ones when it is written back",
  r'''    box::AVCDecoderConfiguration b;
    const std::string d("\x01\x64\x00\x1f\xff\xe0\x00\x01\xf8\xf8\x00", 11);
    return again(b, d) == d ? 0 : 1;''')

l("tfra-reserved-dropped", "P33", [("src/box/tfra.cpp", "  wbits += bitio::write_uint<std::uint32_t>(&writer, m_reserved, 26);", "  wbits += bitio::write_uint<std::uint32_t>(&writer, m_reserved, 24);\n  wbits += bitio::write_uint<std::uint8_t>(&writer, 0, 2);")],
  "a random access table whose reserved bits are not all zero", "they are moved by two places when it is written back",
  r'''    box::Tfra b;
    const std::string d("\0\0\0\0\0\0\0\1\0\0\0\x40\0\0\0\0", 16);
    return again(b, d) == d ? 0 : 1;''')

l("compressor-name-trimmed", "P33", [("src/box/sample_entry.cpp", "    rbits += bitio::read_uint<std::uint8_t>(&reader, &(m_compressorname[i]));\n  }", "    rbits += bitio::read_uint<std::uint8_t>(&reader, &(m_compressorname[i]));\n  }\n  for (std::size_t i = m_compressorname[0] + 1U; i < std::size(m_compressorname); ++i) {\n    m_compressorname[i] = 0;\n  }")],
  "a visual sample entry with something behind the end of its compressor name", "it is zero when the entry is written back",
  r'''    box::VisualSampleEntry b(BoxType("avc1"));
    std::string d(78, '\0');
    d[42] = 2;
    d[43] = 'a';
    d[60] = 'x';
    return again(b, d) == d ? 0 : 1;''')

# ---- P34
l("offsets-by-halves", "P34", [("src/box/sgpd.cpp", "  if ((offset < 0) || (offset % 32 != 0)) {", "  if ((offset < 0) || (offset % 16 != 0)) {")],
  "an alternative start-up entry whose length leaves two bytes after the offsets", "it is accepted and the next entry is read from the wrong place",
  r'''    box::Sgpd b;
    const std::string d("\1\0\0\0alst\0\0\0\x06\0\0\0\1\0\0\0\1\0\0", 22);
    return refused([&] { again(b, d); }) ? 0 : 1;''')

l("brands-rounded-down", "P34", [("src/box/styp.cpp", "  if (offset_to_end % 4 != 0) {", "  if (offset_to_end % 4 > 2) {"), ("src/box/styp.cpp", "  for (std::size_t i = 0; i * 4 < offset_to_end; ++i) {", "  for (std::size_t i = 0; i < offset_to_end / 4; ++i) {")],
  "a segment type box with one or two stray bytes after its brands", "it is accepted and the bytes are lost",
  r'''    box::Styp b;
    const std::string d("msdh\0\0\0\0msix\0\0", 14);
    return refused([&] { again(b, d); }) ? 0 : 1;''')

l("high-fields-for-extended", "P34", [("src/box/avc.cpp", "  if (!is_avc_high_profile(m_profile)) {\n    throw std::runtime_error(", "  if (!is_avc_high_profile(m_profile) && m_profile < AVCExtendedProfile) {\n    throw std::runtime_error(")],
  "an extended or 4:4:4 intra profile with the fields of high profiles", "a record is written that no reader takes for what it is",
  r'''    return refused([&] {
      box::AVCDecoderConfiguration b({.configuration_version = 1, .profile = box::AVCExtendedProfile, .profile_compatibility = 0, .level = 30, .high_profile_fields_enabled = true});
      std::ostringstream os;
      b.writeData(os);
    }) ? 0 : 1;''')

l("pascal-length-wraps", "P34", [("src/bitio/bitio.cpp", "  if (size > 0xff) {", "  if (size > 0x100) {")],
  "a text of exactly 256 bytes", "it is written with a length of zero",
  r'''    std::ostringstream os;
    bitio::Writer w(os);
    return refused([&] { bitio::write_pascal_string(&w, std::string(256, 'a')); }) ? 0 : 1;''')

l("quicktime-length-by-version", "P34", [("src/box/sample_entry.cpp", "  if (m_entry_version == 2 && length != 36) {", "  if (m_entry_version == 2 && length % 36 != 0) {")],
  "an audio sample entry of version 2 without its further fields", "it is written without them",
  r'''    return refused([&] {
      box::AudioSampleEntry b({.type = BoxType("mp4a"), .data_reference_index = 1, .entry_version = 2, .channel_count = 2, .sample_size = 16, .pre_defined = 0, .sample_rate = 48000U << 16, .is_quick_time_compatible = true});
    }) ? 0 : 1;''')
