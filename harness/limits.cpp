// P34: what a box cannot represent is refused when it is written, what contradicts itself when it is read.
#include "pch.hpp"

#include "kinds.hpp"

namespace {

struct W {  // something to write
  std::string id, what;
  bool fits;
  Bytes enc;                                  // what it is written as, if it fits
  std::function<std::shared_ptr<Box>()> box;  // may throw when it does not fit
  std::function<std::shared_ptr<Box>()> fresh;
};

void writes(mc::MC& m, const W& w) {
  if (!m.next()) return;
  m.trace();
  m.trans(3);
  m.state(mc::hash(w.what, mc::hash(w.id)));
  m.eval(!w.fits);
  m.sample([&] { return w.what + (w.fits ? " is written" : " is refused"); });
  std::ostringstream os;
  std::string why;
  bool ok = false;
  std::uint64_t wbits = 0, size = 0;
  try {
    auto b = w.box();
    wbits = b->writeData(os);
    size = b->getDataSize();
    ok = true;
  } catch (const std::exception& e) {
    why = e.what();
  } catch (...) {
    return m.fail(w.id + ":exception", "threw something that is no std::exception", w.what);
  }
  m.outcome(mc::hash(w.id + (ok ? "+" : "-") + std::to_string(os.str().size())));
  if (ok && !w.fits) return m.fail(w.id + ":written", "was written without an error, " + std::to_string(os.str().size()) + " bytes beginning with " + mc::hex(os.str().substr(0, 24)), w.what);
  if (!ok && w.fits) return m.fail(w.id + ":refused", "was refused: " + why, w.what);
  if (!ok) return;
  const std::string want = ut::str(w.enc);
  if (os.str() != want || wbits != 8 * want.size() || size != want.size()) {
    std::size_t i = 0;
    while (i < want.size() && i < os.str().size() && want[i] == os.str()[i]) ++i;
    return m.fail(w.id + ":bytes", "wrote " + std::to_string(os.str().size()) + " bytes (announced " + std::to_string(size) + ") instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(i), w.what);
  }
  if (!w.fresh) return;
  try {
    auto b = w.fresh();
    std::istringstream is(want);
    const auto rbits = b->readData(is);
    std::ostringstream again;
    b->writeData(again);
    if (rbits != 8 * want.size() || again.str() != want) m.fail(w.id + ":back", "is read back as something else", w.what);
  } catch (const std::exception& e) {
    m.fail(w.id + ":back", std::string("is refused when read back: ") + e.what(), w.what);
  }
}

// data that has to be accepted or refused by a box
void reads(mc::MC& m, const std::string& id, const std::shared_ptr<Box>& b, const Bytes& data, bool accept, const std::function<std::string()>& what, const std::optional<Bytes>& rewritten = {}) {
  if (!m.next()) return;
  m.trace();
  m.trans();
  const std::string s = ut::str(data);
  m.state(mc::hash(s, mc::hash(id)));
  m.eval(!accept);
  auto where = [&] { return id + " data " + mc::hex(s, 200) + " (" + what() + ")"; };
  m.sample([&] { return where() + (accept ? " is accepted" : " is refused"); });
  std::istringstream is(s);
  bool ok = false;
  std::string why;
  try {
    b->readData(is);
    ok = true;
  } catch (const std::exception& e) {
    why = e.what();
  } catch (...) {
    return m.fail(id + ":exception", "threw something that is no std::exception", where());
  }
  m.outcome(mc::hash(id + (ok ? "+" : "-")));
  if (ok && !accept) return m.fail(id + ":accepted", "was accepted", where());
  if (!ok && accept) return m.fail(id + ":refused", "was refused: " + why, where());
  if (!ok || !rewritten) return;
  std::ostringstream os;
  try {
    b->writeData(os);
  } catch (const std::exception& e) {
    return m.fail(id + ":rewrite", std::string("cannot be written back: ") + e.what(), where());
  }
  if (os.str() != ut::str(*rewritten)) m.fail(id + ":rewrite", "is written back as " + mc::hex(os.str(), 200), where());
}

Bytes run(std::size_t n, unsigned seed = 1) {
  Bytes b(n);
  for (std::size_t i = 0; i < n; ++i) b[i] = static_cast<std::uint8_t>(seed * 37 + i * 11 + i / 256);
  return b;
}

const std::set<unsigned> high = {0x56, 0x64, 0x6e, 0x76, 0x7a, 0x80, 0x8a, 0x90, 0xf4};

std::vector<std::size_t> sizes16(bool thorough) {  // sizes for a field of 16 bits
  std::vector<std::size_t> r;
  for (std::size_t n = 0; n <= (thorough ? 1100 : 300); ++n) r.push_back(n);
  for (std::size_t k = 9; k <= 17; ++k)
    for (int d = -3; d <= 3; ++d) {
      const std::size_t n = (std::size_t{1} << k) + static_cast<std::size_t>(d);
      if (n > r.back()) r.push_back(n);
    }
  for (std::size_t n : {65536 + 255, 65536 + 256, 70000, 3 * 65536, 3 * 65536 + 5}) r.push_back(n);
  return r;
}

void avcc(mc::MC& m) {
  auto one = [&](unsigned profile, std::size_t ns, std::size_t np, std::size_t nx, bool fields, int which, std::size_t len) {
    // one set of list `which` has len bytes, every other three
    std::vector<box::AVCParameterSet> l[3];
    const std::size_t n[3] = {ns, np, nx};
    Enc e;
    e.u8(1).u8(profile).u8(7).u8(30).u8(0xff);
    for (int i = 0; i < 3; ++i) {
      if (i == 2 && fields) e.u8(0xfe).u8(0xfa).u8(0xfd);
      if (i < 2 || fields) e.u8(i == 0 ? 0xe0 | n[0] : n[i]);
      for (std::size_t j = 0; j < n[i]; ++j) {
        const Bytes b = run(which == i && j + 1 == n[i] ? len : 3, static_cast<unsigned>(j + 1));
        l[i].push_back(box::AVCParameterSet({.nal_unit = b}));
        if (i < 2 || fields) e.u16(b.size()).bytes(b);
      }
    }
    const bool fits = ns <= 31 && np <= 255 && (!fields || (nx <= 255 && high.count(profile))) &&
                      (which < 0 || n[which] == 0 || len <= 65535 || (which == 2 && !fields));
    W w{"avcC", "avcC of profile " + std::to_string(profile) + " with " + std::to_string(ns) + ", " + std::to_string(np) + " and " + std::to_string(nx) + " parameter sets, fields of high profiles " +
                  (fields ? "enabled" : "disabled") + (which >= 0 ? ", the last of list " + std::to_string(which) + " of " + std::to_string(len) + " bytes" : ""),
        fits, e.v,
        [=] {
          return std::make_shared<box::AVCDecoderConfiguration>(box::AVCDecoderConfigurationParameters{
              .configuration_version = 1, .profile = static_cast<std::uint8_t>(profile), .profile_compatibility = 7, .level = 30, .sequence_parameter_sets = l[0], .picture_parameter_sets = l[1],
              .high_profile_fields_enabled = fields, .chroma_format = 2, .bit_depth_luma_minus8 = 2, .bit_depth_chroma_minus8 = 5, .sequence_parameter_sets_ext = l[2]});
        },
        [] { return std::make_shared<box::AVCDecoderConfiguration>(); }};
    writes(m, w);
  };
  m.phase("avcC: numbers of parameter sets");
  const std::size_t lim = m.thorough ? 600 : 300;
  for (unsigned p : {0x64U, 0x42U})
    for (bool f : {false, true}) {
      for (std::size_t n = 0; n <= lim; ++n) one(p, n, 1, 1, f, -1, 0), one(p, 1, n, 1, f, -1, 0), one(p, 1, 1, n, f, -1, 0);
      for (std::size_t a : {31, 32})
        for (std::size_t b : {255, 256})
          for (std::size_t c : {255, 256}) one(p, a, b, c, f, -1, 0);
    }
  for (std::size_t n : {512, 1000, 65535, 65536, 65537, 65568}) one(0x64, n, 1, 1, true, -1, 0), one(0x64, 1, n, 1, true, -1, 0), one(0x64, 1, 1, n, true, -1, 0);
  m.phase("avcC: lengths of parameter sets");
  for (int which : {0, 1, 2})
    for (bool f : {true, false})
      for (std::size_t n : sizes16(m.thorough)) one(0x64, 1, 2, 1, f, which, n);
  m.phase("avcC: profiles with and without the fields of high profiles");
  for (unsigned p = 0; p < 256; ++p)
    for (bool f : {false, true})
      for (std::size_t n : {0, 1, 2}) one(p, n, 1, n, f, -1, 0);
  for (unsigned p = 0; p < 256; ++p)
    for (unsigned cf : {0xfcU, 0xfeU})
      for (std::size_t nx : {0, 1}) {
        Enc e;
        e.u8(1).u8(p).u8(0).u8(31).u8(0xff).u8(0xe1).u16(2).u16(0x6742).u8(1).u16(1).u8(0x68);
        const Bytes base = e.v;
        e.u8(cf).u8(0xf9).u8(0xfa).u8(nx);
        for (std::size_t i = 0; i < nx; ++i) e.u16(1).u8(0x6d);
        // what follows the parameter sets belongs to the record for high profiles only
        reads(m, "avcC", std::make_shared<box::AVCDecoderConfiguration>(), e.v, true, [&] { return "profile " + std::to_string(p) + " with the fields of high profiles"; }, high.count(p) ? e.v : base);
      }
}

void vpcc(mc::MC& m) {
  m.phase("vpcC: length of the initialization data");
  for (unsigned v : {0, 1, 2, 255})
    for (std::size_t n : sizes16(m.thorough)) {
      if (v == 0 && n > 0) continue;  // version 0 has none: which of its data count is not said
      const Bytes d = run(n);
      Enc e;
      e.full(v, 0).u8(1).u8(21).u8(0x83).u8(2).u8(2).u8(2).u16(n).bytes(d);
      if (v == 0) continue;
      writes(m, {"vpcC", "vpcC of version " + std::to_string(v) + " with " + std::to_string(n) + " bytes of initialization data", n <= 65535, e.v,
                 [=] {
                   return std::make_shared<box::VPCodecConfiguration>(box::VPCodecConfigurationParameters{.version = static_cast<std::uint8_t>(v), .profile = 1, .video_full_range_flag = 1, .codec_initialization_data = d});
                 },
                 [] { return std::make_shared<box::VPCodecConfiguration>(); }});
    }
}

void sidx(mc::MC& m) {
  m.phase("sidx: number of references");
  for (unsigned v : {0, 1})
    for (std::size_t n : sizes16(false)) {
      if (n > 300 && n < 65000 && !m.thorough) continue;
      std::vector<box::SidxReference> r;
      Enc e;
      e.full(v, 0).u32(1).u32(1000);
      if (v == 0) e.u32(2).u32(3);
      else e.u64(2).u64(3);
      e.u16(0).u16(n);
      for (std::size_t i = 0; i < n; ++i) {
        const box::SidxReferenceParameters p{.reference_type = i % 2 == 1, .reference_size = static_cast<std::uint32_t>(i), .subsegument_duration = 5, .starts_with_sap = true, .sap_type = 3, .sap_delta_time = 9};
        r.push_back(box::SidxReference(p));
        e.u32((i % 2 ? 0x80000000 : 0) | i).u32(5).u32(0xb0000009);
      }
      writes(m, {"sidx", "sidx of version " + std::to_string(v) + " with " + std::to_string(n) + " references", n <= 65535, e.v,
                 [=] {
                   return std::make_shared<box::Sidx>(box::SidxParameters{.version = static_cast<std::uint8_t>(v), .reference_id = 1, .timescale = 1000, .earliest_presentation_time = 2, .first_offset = 3, .references = r});
                 },
                 [] { return std::make_shared<box::Sidx>(); }});
    }
}

std::vector<std::uint32_t> numbers28() {  // around every place where a number needs another byte, and beyond 28 bits
  std::vector<std::uint32_t> r;
  for (std::uint32_t n = 0; n <= 300; ++n) r.push_back(n);
  for (int k = 9; k < 32; ++k)
    for (int d = -40; d <= 3; ++d) r.push_back((1U << k) + static_cast<std::uint32_t>(d));
  for (std::uint32_t n : {0xfffffff0U, 0xfffffff7U, 0xffffffffU, 0x12345678U, 0x0fedcba9U}) r.push_back(n);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}

void esds_written(mc::MC& m) {
  m.phase("esds: length of the URL");
  for (std::size_t n = 0; n <= (m.thorough ? 1100 : 600); ++n)
    for (int opt = 0; opt < 4; ++opt) {
      const Bytes u = run(n);
      Enc f;
      f.u16(7).u8(0x40 | (opt & 1 ? 0x80 : 0) | (opt & 2 ? 0x20 : 0) | 9);
      if (opt & 1) f.u16(0x1122);
      f.u8(n).bytes(u);
      if (opt & 2) f.u16(0x3344);
      Enc e;
      e.full(0, 0).u8(3).bytes(varint(f.v.size(), 4)).bytes(f.v);
      writes(m, {"esds", "esds with a URL of " + std::to_string(n) + " bytes, options " + std::to_string(opt), n <= 255, e.v,
                 [=] {
                   auto d = std::make_shared<box::ESDescriptor>(box::ESDescriptorParameters{
                       .ESID = 7, .stream_dependence_flag = (opt & 1) != 0, .url_flag = true, .ocr_stream_flag = (opt & 2) != 0, .stream_priority = 9, .depends_on_esid = 0x1122, .url_string = u, .OCRESID = 0x3344});
                   return std::make_shared<box::Esds>(box::EsdsParameters{.descriptors = {d}});
                 },
                 [] { return std::make_shared<box::Esds>(); }});
    }
  m.phase("esds, iods: lengths announced");
  for (std::uint32_t n : numbers28()) {
    for (bool es : {true, false}) {
      const std::uint64_t total = static_cast<std::uint64_t>(n) + (es ? 3 : 13);
      if (total > 0xffffffff) continue;  // no number at all
      Enc e;
      e.full(0, 0).u8(es ? 3 : 4).bytes(varint(total & 0x0fffffff, 4));
      if (es) e.u16(7).u8(9);
      else e.u8(0x40).u8(0x15).u24(1).u32(2).u32(3);
      writes(m, {"esds", std::string(es ? "ES" : "decoder configuration") + " descriptor with " + std::to_string(n) + " bytes of sub-descriptors", total < (1U << 28), e.v,
                 [=]() -> std::shared_ptr<Box> {
                   std::shared_ptr<box::Descriptor> d;
                   if (es) d = std::make_shared<box::ESDescriptor>(box::ESDescriptorParameters{.sub_descriptors_size = n, .ESID = 7, .stream_priority = 9});
                   else d = std::make_shared<box::DecoderConfigDescriptor>(box::DecoderConfigDescriptorParameters{.sub_descriptors_size = n, .object_type_indication = 0x40, .stream_type = 5, .buffer_size_db = 1, .max_bitrate = 2, .avg_bitrate = 3});
                   return std::make_shared<box::Esds>(box::EsdsParameters{.descriptors = {d}});
                 },
                 {}});
    }
    Enc e;
    e.full(0, 0).u8(0x10).bytes(varint(n & 0x0fffffff, 4)).u16(5).u8(1).u8(2).u8(3).u8(4).u8(6);
    writes(m, {"iods", "iods with a descriptor length of " + std::to_string(n), n < (1U << 28), e.v,
               [=] {
                 return std::make_shared<box::Iods>(box::IodsParameters{.type_tag = 0x10, .descriptor_length = n, .OD_ID = 5, .OD_profile_level = 1, .scene_profile_level = 2, .audio_profile_level = 3, .video_profile_level = 4, .graphics_profile_level = 6});
               },
               {}});
  }
}

void audio(mc::MC& m) {
  m.phase("mp4a: length of the QuickTime fields");
  for (const char* type : {"mp4a", "enca"})
    for (std::uint16_t v : {0, 1, 2, 3})
      for (bool wave : {false, true})
        for (bool qt : {true, false})
          for (std::size_t n = 0; n <= 80; ++n) {
            const Bytes q = run(n);
            // versions 1 and 2 have a fixed number of further bytes, and only entries that say so have any
            bool fits = qt || n == 0;
            if (!wave && v == 1) fits = fits && n == 16;
            if (!wave && v == 2) fits = fits && n == 36;
            Enc e;
            if (!wave) e.zero(6).u16(1).u16(v).zero(6).u16(2).u16(16).u32(0).u32(48000 << 16);
            e.bytes(q);
            writes(m, {"mp4a", std::string(type) + " entry of version " + std::to_string(v) + (wave ? " inside wave" : "") + (qt ? " for QuickTime" : "") + " with " + std::to_string(n) + " bytes of QuickTime data", fits, e.v,
                       [=] {
                         return std::make_shared<box::AudioSampleEntry>(box::AudioSampleEntryParameters{.type = BoxType(type), .data_reference_index = 1, .entry_version = v, .channel_count = 2, .sample_size = 16,
                                                                                                      .pre_defined = 0, .sample_rate = 48000U << 16, .is_quick_time_compatible = qt, .quick_time_data = q, .under_wave = wave});
                       },
                       {}});
          }
}

void numbers(mc::MC& m) {
  m.phase("numbers in groups of seven bits, strings with a length byte");
  for (std::uint32_t n : numbers28())
    for (unsigned size = 1; size <= 5; ++size) {
      if (!m.next()) continue;
      m.trace();
      m.trans();
      m.state(mc::mix(n, size));
      const bool fits = size == 5 || (n >> (7 * size)) == 0;
      m.eval(!fits);
      auto where = [&] { return "write_uvarint of " + std::to_string(n) + " in " + std::to_string(size) + " bytes"; };
      m.sample(where);
      std::ostringstream os;
      bitio::Writer w(os);
      bool ok = false;
      try {
        bitio::write_uvarint<std::uint32_t>(&w, n, static_cast<std::uint8_t>(size));
        ok = true;
      } catch (const std::exception&) {
      }
      m.outcome(mc::mix(ok, size));
      if (ok != fits) m.fail("uvarint", ok ? "was written although it does not fit" : "was refused", where());
      else if (ok && os.str() != ut::str(varint(n, static_cast<int>(size)))) m.fail("uvarint:bytes", "wrote " + mc::hex(os.str()), where());
    }
  for (std::size_t n : sizes16(m.thorough)) {
    if (!m.next()) continue;
    m.trace();
    m.trans();
    m.state(mc::mix(n, 99));
    m.eval(n > 255);
    auto where = [&] { return "write_pascal_string of " + std::to_string(n) + " bytes"; };
    m.sample(where);
    std::ostringstream os;
    bitio::Writer w(os);
    bool ok = false;
    const Bytes b = run(n);
    try {
      bitio::write_pascal_string(&w, ut::str(b));
      ok = true;
    } catch (const std::exception&) {
    }
    m.outcome(mc::mix(ok, n));
    Enc e;
    e.u8(n).bytes(b);
    if (ok != (n <= 255)) m.fail("pascal", ok ? "was written although it does not fit" : "was refused", where());
    else if (ok && os.str() != ut::str(e.v)) m.fail("pascal:bytes", "wrote " + mc::hex(os.str()), where());
  }
}

void brands(mc::MC& m) {
  m.phase("ftyp, styp: length of the list of brands");
  for (std::size_t n = 0; n <= (m.thorough ? 1000 : 300); ++n) {
    Bytes b = run(n);
    for (bool f : {true, false}) {
      std::shared_ptr<Box> x;
      if (f) x = std::make_shared<box::Ftyp>();
      else x = std::make_shared<box::Styp>();
      reads(m, f ? "ftyp" : "styp", x, b, n >= 8 && n % 4 == 0, [&] { return std::to_string(n) + " bytes"; }, b);
    }
  }
}

void descriptors(mc::MC& m) {
  m.phase("esds: lengths that contradict what follows");
  auto go = [&](const Bytes& data, bool accept, const std::string& what, bool back = true) {
    std::optional<Bytes> b;
    if (back) b = data;
    reads(m, "esds", std::make_shared<box::Esds>(), data, accept, [&] { return what; }, b);
  };
  // descriptors with fields: the length counts them and whatever descriptors follow
  for (int opt = 0; opt < 8; ++opt)
    for (std::size_t ul : {0, 1, 5, 130}) {
      if (!(opt & 2) && ul > 0) continue;
      Enc f;
      f.u16(7).u8(opt << 5 | 9);
      if (opt & 4) f.u16(0x1122);
      if (opt & 2) f.u8(ul).bytes(run(ul));
      if (opt & 1) f.u16(0x3344);
      const std::size_t own = f.v.size();
      for (std::size_t l = 0; l <= own + 20; ++l)
        for (int nb = 1; nb <= 8; ++nb) {
          if (l >> (7 * nb)) continue;
          Enc e;
          e.full(0, 0).u8(3).bytes(varint(l, nb)).bytes(f.v);
          if (l > own) e.u8(0x0e).bytes(run(l - own - 1));
          go(e.v, nb <= 4 && l >= own, "ES descriptor, options " + std::to_string(opt) + ", fields of " + std::to_string(own) + " bytes, length " + std::to_string(l) + " in " + std::to_string(nb) + " bytes");
        }
    }
  for (std::size_t l = 0; l <= 150; ++l)
    for (int nb = 1; nb <= 8; ++nb) {
      if (l >> (7 * nb)) continue;
      for (bool inside : {false, true}) {
        Enc e, f;
        f.u8(4).bytes(varint(l, nb)).u8(0x40).u8(0x15).u24(6144).u32(128000).u32(96000);
        if (l > 13) f.u8(0x0e).bytes(run(l - 14));
        e.full(0, 0);
        if (inside) e.u8(3).bytes(varint(3 + f.v.size(), 2)).u16(1).u8(0);
        e.bytes(f.v);
        go(e.v, nb <= 4 && l >= 13, "decoder configuration descriptor of length " + std::to_string(l) + " in " + std::to_string(nb) + " bytes" + (inside ? " inside another" : ""));
      }
    }
  // descriptors with data: the data must be there
  std::vector<std::size_t> rest;
  for (std::size_t n = 0; n <= 40; ++n) rest.push_back(n);
  for (std::size_t n = 120; n <= 140; ++n) rest.push_back(n);
  for (std::size_t n : {255, 256, 300}) rest.push_back(n);
  for (int tag : {5, 6})
    for (std::size_t r : rest)
      for (std::size_t l = 0; l <= 310; ++l) {
        if (l > 42 && (l < 118 || l > 142) && (l < 253 || l > 258) && l < 298) continue;
        for (int nb = 1; nb <= 6; ++nb) {
          if (l >> (7 * nb)) continue;
          Enc e;
          e.full(0, 0).u8(tag).bytes(varint(l, nb));
          for (std::size_t i = 0; i < r; ++i) e.u8(i == l ? 0x7f : 0xc0 + i % 7);  // what follows is a descriptor nobody knows
          go(e.v, nb <= 4 && l <= r, "descriptor " + std::to_string(tag) + " of length " + std::to_string(l) + " in " + std::to_string(nb) + " bytes before " + std::to_string(r) + " bytes");
        }
      }
  for (int tag : {5, 6})
    for (std::uint32_t l : numbers28()) {
      if (l < 128 || l >= (1U << 28)) continue;
      Enc e;
      e.full(0, 0).u8(tag).bytes(varint(l, 4)).zero(100);
      go(e.v, false, "descriptor " + std::to_string(tag) + " of length " + std::to_string(l) + " before 100 bytes");
    }
  m.phase("iods: lengths that contradict what follows");
  for (std::uint32_t l : numbers28())
    for (std::size_t r : {0, 1, 2, 5, 113, 120, 121, 122, 200, 293})
      for (int nb = 1; nb <= 8; ++nb) {
        if (nb < 5 && (l >> (7 * nb))) continue;
        if (nb > 4 && l > 300) continue;
        Enc e;
        e.full(0, 0).u8(0x10).bytes(varint(l, nb)).u16(5).u8(1).u8(2).u8(3).u8(4).u8(6).bytes(run(r));
        Bytes back(e.v.begin(), e.v.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(e.v.size(), 5 + static_cast<std::size_t>(nb) + l)));
        reads(m, "iods", std::make_shared<box::Iods>(), e.v, nb <= 4 && l >= 7 && l - 7 <= r, [&] { return "length " + std::to_string(l) + " in " + std::to_string(nb) + " bytes, " + std::to_string(r) + " bytes after the levels"; }, back);
      }
}

void groups(mc::MC& m) {
  m.phase("sgpd: lengths of start-up entries that contradict their number of offsets");
  for (bool each : {false, true})
    for (std::size_t rc = 0; rc <= (m.thorough ? 20 : 6); ++rc)
      for (std::uint32_t l = 0; l <= 4 + 4 * rc + 40; ++l)
        for (std::size_t n : {1, 2, 3}) {
          if (!each && l == 0) continue;
          Enc e;
          e.full(1, 0).str("alst").u32(each ? 0 : l).u32(n);
          const std::size_t own = 4 + 4 * rc;
          const bool good = l >= own && (l - own) % 4 == 0;
          for (std::size_t i = 0; i < n; ++i) {
            if (each) e.u32(l);
            e.u16(rc).u16(9 + i);
            for (std::size_t k = 0; k < rc; ++k) e.u32(100 * i + k);
            if (good) e.bytes(run(l - own));
          }
          if (!good) e.zero(400);
          reads(m, "sgpd", std::make_shared<box::Sgpd>(), e.v, good,
                [&] { return std::to_string(n) + " entries with " + std::to_string(rc) + " offsets and " + (each ? "own" : "common") + " length " + std::to_string(l); }, e.v);
        }
}

std::string path_of(const std::vector<std::size_t>& v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + "]";
}

// A box whose numbers are beyond their fields is refused, or what is written is what the box holds: the type of the
// number may not hold it either. What the box holds is seen in its description.
void fields(mc::MC& m) {
  m.phase("numbers beyond their fields");
  for (auto& k : kinds()) {
    std::set<std::vector<int>> seen;
    structures(k, [&](auto& path, auto&) {
      Ch d;
      d.path = path;
      if (k.gen(d).enc.size() > 2000) return;
      if (!m.thorough && !seen.insert(d.widths).second) return;
      for (std::size_t f = 0; f < d.widths.size(); ++f)
        for (int v = 0; v < 5; ++v) {
          if (d.widths[f] >= 64 || !m.next()) continue;
          m.trace();
          m.trans(3);
          auto where = [&] { return k.name + " structure " + path_of(path) + ", number " + std::to_string(f) + " of " + std::to_string(d.widths[f]) + " bits, too large value " + std::to_string(v); };
          std::string held, shown, w;
          try {
            Ch c;
            c.path = path;
            c.over_at = f;
            c.over_v = v;
            Case x = k.gen(c);
            held = x.box->toStringOnlyData();
            m.state(mc::hash(held, mc::hash(k.name)));
            m.sample(where);
            std::ostringstream os;
            const auto wbits = x.box->writeData(os);
            w = os.str();
            if (wbits != 8 * w.size()) {
              m.fail(k.name + ":over-size", "reported " + std::to_string(wbits) + " bits of " + std::to_string(w.size()) + " bytes", where());
              continue;
            }
            m.eval(false);
            m.outcome(mc::hash(k.name + "+"));
            auto b = k.fresh();
            if (x.prepare) x.prepare(b.get());
            std::istringstream is(w);
            try {
              b->readData(is);
              shown = b->toStringOnlyData();
            } catch (const std::exception& e) {
              m.fail(k.name + ":over-back", std::string("was written without an error but is refused when read back: ") + e.what(), where());
              continue;
            }
            if (shown != held) m.fail(k.name + ":over", "holds \"" + held.substr(0, 400) + "\", was written without an error and is read back as \"" + shown.substr(0, 400) + "\"", where());
          } catch (const std::exception&) {
            m.eval(true);
            m.outcome(mc::hash(k.name + "-"));
          }
        }
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  spdlog::set_level(spdlog::level::off);
  avcc(m);
  vpcc(m);
  sidx(m);
  esds_written(m);
  audio(m);
  numbers(m);
  brands(m);
  descriptors(m);
  groups(m);
  fields(m);
  return m.finish();
}
