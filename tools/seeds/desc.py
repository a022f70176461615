from common import *
from box import b


def d(id, file, old, new, needs, breaks, main):
    b(id, "P30", [("src/box/%s.cpp" % file, old, new)], needs, breaks, main)


d("elst-times-in-32-bits-shown", "elst", "m_track_duration, m_media_time,\n                     getMediaRate()", "m_track_duration, m_track_duration > 0xffffffff ? m_media_time : static_cast<std::int32_t>(m_media_time),\n                     getMediaRate()",
  "a version 1 edit with a short duration and a media time beyond 31 bits", "the media time is shown cut to 32 bits",
  '''    box::Elst e({.version = 1, .entries = {box::ElstEntry({.track_duration = 5, .media_time = 0x123456789LL})}});
    return e.toStringOnlyData().find("4886718345") == string::npos;''')
d("kid-without-leading-zeros", "pssh", 'fmt::format(R"("{:02x}")", fmt::join(m_kid, ""))', 'fmt::format(R"("{:x}")", fmt::join(m_kid, ""))',
  "a key identifier with a byte below 16", "its text lacks a digit",
  '''    box::Pssh p({.version = 1, .kids = {box::PsshKID({.kid = {1, 2, 3}})}});
    return p.toStringOnlyData().find("01020300000000000000000000000000") == string::npos;''')
d("sample-flags-hidden-after-first", "trun", '  if (flags & 0x400) {\n    ss.push_back(fmt::format("SampleFlags', '  if ((flags & 0x404) == 0x400) {\n    ss.push_back(fmt::format("SampleFlags',
  "a track run with both the flags of the first sample and flags for each", "the flags of the samples are not shown",
  '''    box::Trun t({.flags = 0x404, .first_sample_flags = 1, .entries = {box::TrunEntry({.sample_flags = 0x777})}});
    return t.toStringOnlyData().find("0x777") == string::npos;''')
d("sap-type-only-when-starting", "sidx", "m_starts_with_sap, m_sap_type, m_sap_delta_time);\n}", "m_starts_with_sap, m_starts_with_sap || m_sap_delta_time > 0 ? m_sap_type : 0, m_sap_delta_time);\n}",
  "a reference that does not start with a stream access point, with a type and no delta", "the type is shown as 0",
  '''    box::Sidx s({.references = {box::SidxReference({.reference_type = false, .reference_size = 1, .subsegument_duration = 1, .starts_with_sap = false, .sap_type = 5, .sap_delta_time = 0})}});
    return s.toStringOnlyData().find("SAPType=5") == string::npos;''')
