// The box kinds, each with a choice tree of its contents and an independent encoder of them.
#pragma once

#include "mc.hpp"
#include "util.hpp"

#include <malloc.h>

#include <spdlog/spdlog.h>

#include <iostream>
#include <optional>

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

using namespace shiguredo::mp4;
using ut::Bytes;
using ut::Enc;

// ------------------------------------------------------------------ chooser
struct Ch {
  // structure: a prefix to replay, 0 beyond it
  std::vector<std::size_t> path;
  std::vector<std::size_t> radix;
  std::size_t at = 0;
  // values: index into each field's alphabet, 0 beyond the end; `all` overrides
  std::vector<std::size_t> sel;
  std::vector<std::size_t> nval;
  int all = -1;
  // one field may instead take the value number wide_v of its extended alphabet (nwide: the sizes of these)
  std::vector<std::uint64_t> nwide;
  std::size_t wide_at = ~std::size_t{0};
  std::uint64_t wide_v = 0;
  bool wide = false;  // the last field asked for is that one
  // what the fields were, in order (P30)
  struct Shown {
    char type;  // n number, y bytes, t text with other characters replaced by dots
    int bits;
    std::uint64_t v;
    Bytes b;
    bool sign = false;
  };
  std::vector<Shown> shown;
  void hide(std::size_t n = 1) { shown.resize(shown.size() - n); }
  void show_number(int bits, std::uint64_t v) { shown.push_back({'n', bits, v, {}}); }
  void show_bytes(const Bytes& b) { shown.push_back({'y', 0, 0, b}); }
  bool quiet = false;  // fields of long lists: not enumerated, default values only
  std::size_t ord = 0;

  std::size_t pick(std::size_t n) {
    if (n < 2) return 0;
    if (at >= path.size()) path.push_back(0);
    if (at >= radix.size()) radix.push_back(n);
    radix[at] = n;
    return path[at++];
  }
  std::size_t value(std::size_t n, std::uint64_t extended = 0) {
    ++ord;
    wide = false;
    if (quiet || nval.size() >= 48) return 0;
    const std::size_t i = nval.size();
    nval.push_back(n);
    nwide.push_back(extended);
    wide = i == wide_at && wide_v < extended;
    if (all >= 0) return static_cast<std::size_t>(all) < n ? static_cast<std::size_t>(all) : n - 1;
    return i < sel.size() ? sel[i] : 0;
  }
  static std::uint64_t mask(int bits) { return bits >= 64 ? ~0ULL : ((1ULL << bits) - 1); }
  std::uint64_t pattern(int bits) const {
    // bytes that differ from each other and from field to field, top bit clear
    std::uint64_t r = 0;
    for (int i = 0; i < 8; ++i) r = (r << 8) | ((0x11 * (i + 1) + 7 * (ord + 1)) & 0xff);
    r = (r >> (64 - bits)) & mask(bits);
    if (bits > 3) r &= ~(1ULL << (bits - 1));
    return r;
  }
  // one number may instead be beyond what its bits can hold (over_at: which; over_v: what it is increased by, times
  // the first value out of range)
  std::vector<int> widths;
  std::size_t over_at = ~std::size_t{0};
  int over_v = 0;
  std::uint64_t u(int bits) {
    std::uint64_t v = u_(bits);
    if (!quiet && widths.size() < 48) {
      if (widths.size() == over_at && bits < 64) {
        const std::uint64_t one = 1ULL << bits;
        v = over_v == 0 ? v | one : over_v == 1 ? one : over_v == 2 ? ~0ULL : over_v == 3 ? v | (1ULL << 63) : v | one << (bits > 31 ? 16 : bits > 8 ? 4 : 1);
      }
      widths.push_back(bits);
    }
    show_number(bits, v);
    return v;
  }
  std::uint64_t u_(int bits) {
    if (bits <= 3) {
      const std::uint64_t d = (ord + 1) & mask(bits);
      const std::size_t v = value(1ULL << bits);
      return (d + v) & mask(bits);
    }
    const std::uint64_t p = pattern(bits), m = mask(bits);
    // extended: every value of up to eight bits; else every value of every byte, every single bit set and cleared
    const std::uint64_t bytes = (bits + 7) / 8;
    const std::size_t v = value(8, bits <= 8 ? 1ULL << bits : bytes * 256 + 2 * bits);
    if (wide) {
      if (bits <= 8) return wide_v;
      if (wide_v < bytes * 256) return ((p & ~(0xffULL << (wide_v / 256 * 8))) | ((wide_v % 256) << (wide_v / 256 * 8))) & m;
      const std::uint64_t k = wide_v - bytes * 256;
      return k % 2 ? (1ULL << (k / 2)) : m & ~(1ULL << (k / 2));
    }
    switch (v) {
      case 1: return 0;
      case 2: return 1;
      case 3: return m;
      case 4: return 1ULL << (bits - 1);
      case 5: return m >> 1;
      case 6: return ~p & m;
      case 7: return bits > 8 ? (1ULL << (bits / 2)) - 1 : 2;
    }
    return p;
  }
  std::int64_t i(int bits) {
    const std::uint64_t x = u(bits);
    shown.back().sign = true;
    if (bits < 64 && (x >> (bits - 1)) != 0) return static_cast<std::int64_t>(x | ~mask(bits));
    return static_cast<std::int64_t>(x);
  }
  bool b() { return u(1) != 0; }
  // the version of a box whose layout does not depend on it (shown as every version is)
  std::uint8_t ver() {
    static const std::uint8_t some[] = {0, 1, 0xff, 0x5a, 2, 0x80, 0x7f, 3};
    const std::size_t v = value(8, 256);
    return wide ? static_cast<std::uint8_t>(wide_v) : some[v];
  }
  Bytes run(std::size_t n) const {
    Bytes r(n);
    for (std::size_t k = 0; k < n; ++k) r[k] = static_cast<std::uint8_t>(0x21 + 13 * k + 5 * ord + k / 256);
    return r;
  }
  Bytes big(std::size_t n) {
    const Bytes b = run(n);
    show_bytes(b);
    return b;
  }
  Bytes fixed(std::size_t n) {
    const Bytes b = fixed_(n);
    show_bytes(b);
    return b;
  }
  Bytes fixed_(std::size_t n) {
    const std::size_t v = value(5, n <= 64 ? n * 256 : 0);  // extended: every value of every byte
    if (wide) {
      Bytes r = run(n);
      r[wide_v / 256] = static_cast<std::uint8_t>(wide_v % 256);
      return r;
    }
    switch (v) {
      case 1: return Bytes(n, 0);
      case 2: return Bytes(n, 0xff);
      case 3: { Bytes r = run(n); r[0] = 0x80; r[n - 1] = 0x7f; return r; }
      case 4: { Bytes r(n, 0); r[n - 1] = 1; return r; }
    }
    return run(n);
  }
  template <std::size_t N>
  std::array<std::uint8_t, N> arr() {
    const Bytes x = fixed(N);
    std::array<std::uint8_t, N> a;
    std::copy(x.begin(), x.end(), a.begin());
    return a;
  }
  Bytes blob(std::size_t limit = 300) {
    const Bytes b = blob_(limit);
    show_bytes(b);
    return b;
  }
  Bytes blob_(std::size_t limit) {
    static const std::size_t len[] = {3, 0, 1, 2, 7, 255, 256, 300};
    std::size_t n = 0;
    while (n < 8 && len[n] <= limit) ++n;
    const std::uint64_t lengths = std::min<std::uint64_t>(limit, 300) + 1;
    const std::size_t v = value(n + 1, lengths + 512);  // extended: every length; every value of the first and last byte
    if (wide) {
      if (wide_v < lengths) return run(static_cast<std::size_t>(wide_v));
      Bytes r = run(std::min<std::size_t>(limit, 3));
      if (!r.empty()) r[(wide_v - lengths) / 256 ? r.size() - 1 : 0] = static_cast<std::uint8_t>((wide_v - lengths) % 256);
      return r;
    }
    if (v == n) return Bytes(4, 0);
    return run(len[v]);
  }
  std::string str() {
    const std::string s = str_();
    shown.push_back({'s', 0, 0, ut::bytes(s)});
    return s;
  }
  std::string str_() {  // no zero inside
    static const std::size_t len[] = {5, 0, 1, 2, 254, 255, 256, 300};
    const std::size_t v = value(10, 301 + 3 * 255);  // extended: every length; every byte at the start, inside and at the end
    if (wide) {
      std::string s(wide_v <= 300 ? static_cast<std::size_t>(wide_v) : 5, 'a');
      for (std::size_t k = 0; k < s.size(); ++k) s[k] = static_cast<char>('a' + (k + ord) % 26);
      if (wide_v > 300) s[(wide_v - 301) / 255 * 2] = static_cast<char>(1 + (wide_v - 301) % 255);
      return s;
    }
    if (v == 8) return "\xe3\x83\x93\xff\x80\x01";
    if (v == 9) return "tr\xc3\xa9s \"q\" {}\n%s\\";
    std::string s(len[v], 'a');
    for (std::size_t k = 0; k < s.size(); ++k) s[k] = static_cast<char>('a' + (k + ord) % 26);
    return s;
  }
  // length of a list: 0..3 or one of the long ones, whose entries keep their default values
  std::size_t len(std::vector<std::size_t> big = {256}, std::size_t small = 4) {
    const std::size_t v = pick(small + big.size());
    if (v < small) return v;
    quiet = true;
    return big[v - small];
  }
};

struct Case {
  std::shared_ptr<Box> box;
  Bytes enc;
  bool children = false;  // boxes may follow in the data
  std::function<void(Box*)> prepare;  // context the reader provides before reading
  bool read = true;                   // the standard data can be recognised without outside knowledge
  std::shared_ptr<Box> alt_box;       // another form of the same content that readers have to understand:
  Bytes alt_enc;                      // its data, and a box with the same description
};

struct Kind {
  std::string name;  // four-character type
  std::function<Case(Ch&)> gen;
  std::function<std::shared_ptr<Box>()> fresh;
  bool registered = true;
};

template <typename B, typename P>
static std::shared_ptr<Box> mk(const P& p) { return std::make_shared<B>(p); }

template <std::size_t N>
static std::array<std::uint8_t, N> to_arr(const std::string& s) {
  std::array<std::uint8_t, N> a{};
  for (std::size_t i = 0; i < N && i < s.size(); ++i) a[i] = static_cast<std::uint8_t>(s[i]);
  return a;
}

// a list whose length is a structural choice; f makes one element and appends its encoding
// (counted: with a field that gives the number of elements)
template <typename T>
static std::vector<T> list(Ch& c, const std::vector<std::size_t>& big, const std::function<T()>& f, bool counted = true) {
  const std::size_t n = c.len(big);
  std::vector<T> v;
  if (counted) c.show_number(32, n);
  for (std::size_t i = 0; i < n; ++i) v.push_back(f());
  c.quiet = false;
  return v;
}

// ---- elementary stream descriptors
struct Desc {
  int tag;  // 3 ES, 4 decoder configuration, 5 decoder specific information, 6 synchronisation layer
  Bytes fields;
  std::vector<Desc> subs;
  int form = 0;  // number of bytes of the length field in the other form
  box::ESDescriptorParameters es() const { return {}; }
  std::function<std::shared_ptr<box::Descriptor>(std::uint32_t)> make;  // from the size of the sub-descriptors (0: added)
};
static int min_length_bytes(std::uint64_t n) { return n < 0x80 ? 1 : n < 0x4000 ? 2 : n < 0x200000 ? 3 : 4; }
static Bytes varint(std::uint64_t n, int bytes) {
  Bytes r;
  for (int i = bytes - 1; i >= 0; --i) r.push_back(static_cast<std::uint8_t>(((n >> (7 * i)) & 0x7f) | (i ? 0x80 : 0)));
  return r;
}
// the descriptor with its sub-descriptors; with `four`, every length takes four bytes
static Bytes encode(const Desc& d, bool four) {
  Enc body;
  body.bytes(d.fields);
  for (auto& s : d.subs) body.bytes(encode(s, four));
  Enc e;
  e.u8(d.tag).bytes(varint(body.v.size(), four ? 4 : std::max(d.form, min_length_bytes(body.v.size())))).bytes(body.v);
  return e.v;
}
static std::uint64_t subs_size(const Desc& d, bool four) {
  std::uint64_t n = 0;
  for (auto& s : d.subs) n += encode(s, four).size();
  return n;
}
// the flat list the box wants, sizes announced by number
static void flatten(const Desc& d, bool four, std::vector<std::shared_ptr<box::Descriptor>>* out) {
  out->push_back(d.make(static_cast<std::uint32_t>(subs_size(d, four))));
  for (auto& s : d.subs) flatten(s, four, out);
}
// the same list, sizes computed from added sub-descriptors
static std::shared_ptr<box::Descriptor> link(const Desc& d, std::vector<std::shared_ptr<box::Descriptor>>* out) {
  auto p = d.make(0);
  out->push_back(p);
  for (auto& s : d.subs) {
    auto q = link(s, out);
    if (auto* e = dynamic_cast<box::ESDescriptor*>(p.get())) e->addSubDescriptor(q);
    if (auto* e = dynamic_cast<box::DecoderConfigDescriptor*>(p.get())) e->addSubDescriptor(q);
  }
  return p;
}

static Bytes payload(Ch& c) {
  static const std::size_t len[] = {2, 0, 1, 3, 127, 128, 129, 255, 256, 16383, 16384};
  const std::size_t i = c.value(11, 520 + 12 + 512);  // extended: many lengths; every value of the first and last byte
  if (c.wide && c.wide_v < 520) return c.run(static_cast<std::size_t>(c.wide_v));
  if (c.wide && c.wide_v < 532) return c.run(static_cast<std::size_t>(16378 + c.wide_v - 520));
  Bytes r = c.run(c.wide ? 3 : len[i]);
  if (c.wide) r[(c.wide_v - 532) / 256 * 2] = static_cast<std::uint8_t>((c.wide_v - 532) % 256);
  return r;
}
static int length_form(Ch& c) { return static_cast<int>(c.value(4)) + 1; }

static Desc leaf(Ch& c, int tag, std::optional<std::size_t> fixed = {}) {
  const Bytes b = fixed ? c.run(*fixed) : payload(c);
  c.show_bytes(b);
  Desc d{tag, b, {}, length_form(c), {}};
  d.make = [tag, b](std::uint32_t) -> std::shared_ptr<box::Descriptor> {
    if (tag == 5) return std::make_shared<box::DecSpecificInfo>(box::DecSpecificInfoParameters{.data = b});
    return std::make_shared<box::SLConfigDescr>(box::SLConfigDescrParameters{.data = b});
  };
  return d;
}

static Case esds_case(Ch& c) {
  Case r;
  // trees, from the usual one on; the last ones have large payloads
  static const std::vector<std::vector<std::string>> shapes = {
      {"D5", "6"}, {}, {"6"}, {"D"}, {"D5"}, {"D56"}, {"D6"}, {"D55"}, {"5"}, {"D", "6"}, {"6", "D5"}, {"D5", "D5", "6"}, {"D56", "6", "6"},
      {"D*", "6"}, {"D5", "*"}, {"D#"}};
  const std::size_t nshape = c.pick(shapes.size());
  const auto& shape = shapes[nshape];
  const bool added = !c.pick(2);
  const bool large = nshape + 3 >= shapes.size();
  const bool dep = !large && c.pick(2), url = !large && c.pick(2), ocr = !large && c.pick(2);
  Enc tail;
  if (c.pick(2)) tail.u8(0x0e).u8(2).u16(0x1234).u8(0x03);  // a descriptor the library does not know, and what follows
  const std::uint16_t id = c.u(16);
  const std::uint8_t prio = c.u(5);
  const std::uint16_t on = dep ? c.u(16) : 0;
  Bytes us;
  if (url) {
    static const std::size_t len[] = {4, 0, 1, 127, 128, 254, 255};
    const std::size_t v = c.value(7, 256);
    us = c.run(c.wide ? static_cast<std::size_t>(c.wide_v) : len[v]);
    c.show_bytes(us);
  }
  const std::uint16_t oid = ocr ? c.u(16) : 0;
  Desc es{3, {}, {}, length_form(c), {}};
  {
    Enc f;
    f.u16(id).bits(dep, 1).bits(url, 1).bits(ocr, 1).bits(prio, 5);
    if (dep) f.u16(on);
    if (url) f.u8(us.size()).bytes(us);
    if (ocr) f.u16(oid);
    es.fields = f.v;
    es.make = [=](std::uint32_t subs) -> std::shared_ptr<box::Descriptor> {
      return std::make_shared<box::ESDescriptor>(box::ESDescriptorParameters{
          .sub_descriptors_size = subs, .ESID = id, .stream_dependence_flag = dep, .url_flag = url, .ocr_stream_flag = ocr,
          .stream_priority = static_cast<std::int8_t>(prio), .depends_on_esid = on, .url_string = us, .OCRESID = oid});
    };
  }
  auto one = [&](char k) {
    if (k == '*') return leaf(c, 6, 0x1fffff);
    if (k == '#') return leaf(c, 5, 0x200000);
    return leaf(c, k - '0');
  };
  for (auto& s : shape) {
    if (s[0] != 'D') {
      es.subs.push_back(one(s[0]));
      continue;
    }
    const std::uint8_t oti = c.u(8), st = c.u(6);
    const bool up = c.b(), rs = c.b();
    const std::uint32_t bs = c.u(24), mb = c.u(32), ab = c.u(32);
    Desc d{4, {}, {}, length_form(c), {}};
    Enc f;
    f.u8(oti).bits(st, 6).bits(up, 1).bits(rs, 1).u24(bs).u32(mb).u32(ab);
    d.fields = f.v;
    d.make = [=](std::uint32_t subs) -> std::shared_ptr<box::Descriptor> {
      return std::make_shared<box::DecoderConfigDescriptor>(box::DecoderConfigDescriptorParameters{
          .sub_descriptors_size = subs, .object_type_indication = oti, .stream_type = static_cast<std::int8_t>(st), .upstream = up, .reserved = rs,
          .buffer_size_db = bs, .max_bitrate = mb, .avg_bitrate = ab});
    };
    for (std::size_t i = 1; i < s.size(); ++i) d.subs.push_back(one(s[i]));
    es.subs.push_back(d);
  }
  std::vector<std::shared_ptr<box::Descriptor>> l;
  if (added) link(es, &l);
  else flatten(es, true, &l);
  r.box = std::make_shared<box::Esds>(box::EsdsParameters{.descriptors = l});
  Enc e;
  r.enc = e.full(0, 0).bytes(encode(es, true)).v;
  std::vector<std::shared_ptr<box::Descriptor>> l2;
  flatten(es, false, &l2);
  r.alt_box = std::make_shared<box::Esds>(box::EsdsParameters{.descriptors = l2});
  Enc e2;
  r.alt_enc = e2.full(0, 0).bytes(encode(es, false)).bytes(tail.v).v;
  return r;
}

static std::vector<Kind> kinds() {
  using namespace box;
  std::vector<Kind> k;
  auto add = [&](const std::string& name, std::function<Case(Ch&)> g, std::function<std::shared_ptr<Box>()> fresh, bool reg = true) {
    k.push_back({name, std::move(g), std::move(fresh), reg});
  };
#define FRESH(B) [] { return std::static_pointer_cast<Box>(std::make_shared<B>()); }

  // ---- brands
  auto brands = [](Ch& c, Enc& e, Brand* major, std::uint32_t* minor, std::vector<Brand>* compat) {
    *major = c.arr<4>();
    *minor = static_cast<std::uint32_t>(c.u(32));
    *compat = list<Brand>(c, {64, 300}, [&] { return c.arr<4>(); }, false);
    e.bytes(*major).u32(*minor);
    for (auto& b : *compat) e.bytes(b);
  };
  add("ftyp", [=](Ch& c) {
    Enc e; Brand m; std::uint32_t n; std::vector<Brand> l;
    brands(c, e, &m, &n, &l);
    return Case{mk<Ftyp>(FtypParameters{.major_brand = m, .minor_version = n, .compatible_brands = l}), e.v};
  }, FRESH(Ftyp));
  add("styp", [=](Ch& c) {
    Enc e; Brand m; std::uint32_t n; std::vector<Brand> l;
    brands(c, e, &m, &n, &l);
    return Case{mk<Styp>(StypParameters{.major_brand = m, .minor_version = n, .compatible_brands = l}), e.v};
  }, FRESH(Styp));

  // ---- opaque data
  add("free", [](Ch& c) {
    const Bytes d = c.pick(2) ? c.big(70000) : c.blob();
    return Case{mk<Free>(FreeParameters{.data = d}), d};
  }, FRESH(Free));
  add("mdat", [](Ch& c) {
    const Bytes d = c.pick(2) ? c.big(70000) : c.blob();
    return Case{mk<Mdat>(MdatParameters{.data = d}), d};
  }, FRESH(Mdat));
  add("skip", [](Ch& c) {
    const Bytes d = c.pick(2) ? c.big(70000) : c.blob();
    return Case{mk<Skip>(SkipParameters{.data = d}), d};
  }, FRESH(Skip));
  add("unsupported", [](Ch& c) {
    const Bytes d = c.pick(2) ? c.big(70000) : c.blob();
    Enc e;
    return Case{mk<Unsupported>(UnsupportedParameters{.data = d}), e.bytes(d).v};
  }, FRESH(Unsupported), false);

  // ---- headers of movies, tracks and media
  add("mvhd", [](Ch& c) {
    const unsigned v = c.pick(2);
    const int w = v ? 64 : 32;
    const std::uint32_t fl = c.u(24);
    const std::uint64_t ct = c.u(w), mt = c.u(w);
    const std::uint32_t ts = c.u(32);
    const std::uint64_t du = c.u(w);
    const std::int32_t rate = c.i(32);
    const std::int16_t vol = c.i(16);
    std::array<std::int32_t, 9> mx;
    for (auto& x : mx) x = c.i(32);
    std::array<std::int32_t, 6> pd;
    for (auto& x : pd) x = c.i(32);
    const std::uint32_t nt = c.u(32);
    Enc e;
    e.full(v, fl).un(ct, w / 8).un(mt, w / 8).u32(ts).un(du, w / 8).u32(rate).u16(vol).zero(10);
    for (auto x : mx) e.u32(x);
    for (auto x : pd) e.u32(x);
    e.u32(nt);
    return Case{mk<Mvhd>(MvhdParameters{.version = std::uint8_t(v), .flags = fl, .creation_time = ct, .modification_time = mt, .timescale = ts,
                                        .duration = du, .rate = rate, .volume = vol, .matrix = mx, .pre_defined = pd, .next_track_id = nt}), e.v};
  }, FRESH(Mvhd));
  add("tkhd", [](Ch& c) {
    const unsigned v = c.pick(2);
    const int w = v ? 64 : 32;
    const std::uint32_t fl = c.u(24);
    const std::uint64_t ct = c.u(w), mt = c.u(w);
    const std::uint32_t id = c.u(32);
    const std::uint64_t du = c.u(w);
    const std::int16_t layer = c.i(16), alt = c.i(16), vol = c.i(16);
    std::array<std::int32_t, 9> mx;
    for (auto& x : mx) x = c.i(32);
    const std::uint32_t wd = c.u(32), ht = c.u(32);
    Enc e;
    e.full(v, fl).un(ct, w / 8).un(mt, w / 8).u32(id).zero(4).un(du, w / 8).zero(8).u16(layer).u16(alt).u16(vol).zero(2);
    for (auto x : mx) e.u32(x);
    e.u32(wd).u32(ht);
    return Case{mk<Tkhd>(TkhdParameters{.version = std::uint8_t(v), .flags = fl, .creation_time = ct, .modification_time = mt, .track_id = id,
                                        .duration = du, .layer = layer, .alternate_group = alt, .volume = vol, .matrix = mx, .width = wd, .height = ht}), e.v};
  }, FRESH(Tkhd));
  add("mdhd", [](Ch& c) {
    const unsigned v = c.pick(2);
    const int w = v ? 64 : 32;
    const std::uint32_t fl = c.u(24);
    const std::uint64_t ct = c.u(w), mt = c.u(w);
    const std::uint32_t ts = c.u(32);
    const std::uint64_t du = c.u(w);
    const bool pad = c.b();
    std::array<std::uint8_t, 3> lang;
    // the packed form holds the letters 0x60..0x7f
    for (auto& x : lang) x = static_cast<std::uint8_t>(0x60 + c.u(5));
    c.hide(3), c.show_bytes({lang[0], lang[1], lang[2]});
    const std::uint16_t pd = c.u(16);
    Enc e;
    e.full(v, fl).un(ct, w / 8).un(mt, w / 8).u32(ts).un(du, w / 8).bits(pad, 1);
    for (auto x : lang) e.bits(x - 0x60, 5);
    e.u16(pd);
    return Case{mk<Mdhd>(MdhdParameters{.version = std::uint8_t(v), .flags = fl, .creation_time = ct, .modification_time = mt, .timescale = ts,
                                        .duration = du, .pad = pad, .language = lang, .pre_defined = pd}), e.v};
  }, FRESH(Mdhd));
  add("mehd", [](Ch& c) {
    const unsigned v = c.pick(2);
    const std::uint32_t fl = c.u(24);
    const std::uint64_t d = c.u(v ? 64 : 32);
    Enc e;
    e.full(v, fl).un(d, v ? 8 : 4);
    return Case{mk<Mehd>(MehdParameters{.version = std::uint8_t(v), .flags = fl, .fragment_duration = d}), e.v};
  }, FRESH(Mehd));
  add("mfhd", [](Ch& c) {
    const std::uint32_t fl = c.u(24), n = c.u(32);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(n);
    return Case{mk<Mfhd>(MfhdParameters{.version = ver, .flags = fl, .sequence_number = n}), e.v};
  }, FRESH(Mfhd));
  add("mfro", [](Ch& c) {
    const std::uint32_t fl = c.u(24), n = c.u(32);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(n);
    return Case{mk<Mfro>(MfroParameters{.version = ver, .flags = fl, .size = n}), e.v};
  }, FRESH(Mfro));
  add("hdlr", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint32_t pd = c.pick(2) ? c.u(32) : 0;
    const auto ht = c.arr<4>();
    std::string name = c.str();
    const Bytes pad = c.pick(2) ? c.blob() : Bytes{};
    c.shown.resize(pd || c.shown[1].type == 'n' ? 4 : 3);  // the padding is not shown
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(pd).bytes(ht).zero(12).cstr(name).bytes(pad);
    Case r{mk<Hdlr>(HdlrParameters{.version = ver, .flags = fl, .pre_defined = pd, .handler_type = ht, .name = name, .padding = pad}), e.v};
    // QuickTime prefixes the name by its length where pre_defined is not 0: a terminated name that looks like one is not readable
    const std::size_t rest = name.size() + 1 + pad.size();
    if (pd != 0 && rest >= 2 && e.v[24] == rest - 1) r.read = false;
    if (pd != 0 && name.size() <= 255) {  // that form, which takes up the rest of the box
      Enc q;
      q.full(ver, fl).u32(pd).bytes(ht).bytes(Ch{}.run(12)).u8(name.size()).bytes(ut::bytes(name));
      r.alt_box = mk<Hdlr>(HdlrParameters{.version = ver, .flags = fl, .pre_defined = pd, .handler_type = ht, .name = name});
      r.alt_enc = q.v;
    }
    return r;
  }, FRESH(Hdlr));
  add("vmhd", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint16_t g = c.u(16);
    std::array<std::uint16_t, 3> o;
    for (auto& x : o) x = c.u(16);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u16(g);
    for (auto x : o) e.u16(x);
    return Case{mk<Vmhd>(VmhdParameters{.version = ver, .flags = fl, .graphicsmode = g, .opcolor = o}), e.v};
  }, FRESH(Vmhd));
  add("smhd", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::int16_t b = c.i(16);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u16(b).u16(0);
    return Case{mk<Smhd>(SmhdParameters{.version = ver, .flags = fl, .balance = b}), e.v};
  }, FRESH(Smhd));
  add("url ", [](Ch& c) {
    const bool self = c.pick(2);
    const std::uint32_t fl = (c.u(23) << 1) | self;
    c.hide(), c.show_number(24, fl);
    const std::string l = self ? "" : c.str();
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl);
    if (!self) e.cstr(l);
    return Case{mk<Url>(UrlParameters{.version = ver, .flags = fl, .location = l}), e.v};
  }, FRESH(Url));
  add("urn ", [](Ch& c) {
    const bool self = c.pick(2);
    const std::uint32_t fl = (c.u(23) << 1) | self;
    c.hide(), c.show_number(24, fl);
    const std::string n = self ? "" : c.str(), l = self ? "" : c.str();
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl);
    if (!self) e.cstr(n).cstr(l);
    return Case{mk<Urn>(UrnParameters{.version = ver, .flags = fl, .name = n, .location = l}), e.v};
  }, FRESH(Urn));
  add("dref", [](Ch& c) {
    const std::uint32_t fl = c.u(24), n = c.u(32);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(n);
    return Case{mk<Dref>(DrefParameters{.version = ver, .flags = fl, .entry_count = n}), e.v, true};
  }, FRESH(Dref));
  add("stsd", [](Ch& c) {
    const std::uint32_t fl = c.u(24), n = c.u(32);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(n);
    return Case{mk<Stsd>(StsdParameters{.version = ver, .flags = fl, .entry_count = n}), e.v, true};
  }, FRESH(Stsd));
  add("meta", [](Ch&) {
    Enc e;
    e.full(0, 0);
    return Case{std::make_shared<Meta>(), e.v, true};
  }, FRESH(Meta));

  // ---- sample tables
  add("stts", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    auto l = list<std::pair<std::uint32_t, std::uint32_t>>(c, {256, 65537}, [&] { const std::uint32_t a = c.u(32), b = c.u(32); return std::make_pair(a, b); });
    e.full(ver, fl).u32(l.size());
    std::vector<SttsEntry> v;
    for (auto& [a, b] : l) {
      e.u32(a).u32(b);
      v.push_back(SttsEntry({.sample_count = a, .sample_duration = b}));
    }
    return Case{mk<Stts>(SttsParameters{.version = ver, .flags = fl, .entries = v}), e.v};
  }, FRESH(Stts));
  add("ctts", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const std::uint32_t fl = c.u(24);
    Enc e;
    auto l = list<std::pair<std::uint32_t, std::int64_t>>(c, {256, 65537}, [&] {
      const std::uint32_t a = c.u(32);
      const std::int64_t b = ver ? c.i(32) : static_cast<std::int64_t>(c.u(32));
      return std::make_pair(a, b);
    });
    e.full(ver, fl).u32(l.size());
    std::vector<CttsEntry> v;
    for (auto& [a, b] : l) {
      e.u32(a).u32(static_cast<std::uint32_t>(b));
      v.push_back(CttsEntry(a, b));
    }
    return Case{mk<Ctts>(CttsParameters{.version = std::uint8_t(ver), .flags = fl, .entries = v}), e.v};
  }, FRESH(Ctts));
  add("stsc", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    auto l = list<std::array<std::uint32_t, 3>>(c, {256, 65537}, [&] { std::array<std::uint32_t, 3> a; for (auto& x : a) x = c.u(32); return a; });
    e.full(ver, fl).u32(l.size());
    std::vector<StscEntry> v;
    for (auto& a : l) {
      e.u32(a[0]).u32(a[1]).u32(a[2]);
      v.push_back(StscEntry({.first_chunk = a[0], .samples_per_chunk = a[1], .sample_description_index = a[2]}));
    }
    return Case{mk<Stsc>(StscParameters{.version = ver, .flags = fl, .entries = v}), e.v};
  }, FRESH(Stsc));
  add("stsz", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl);
    if (c.pick(2)) {  // a common size
      std::uint32_t s = c.u(32);
      if (s == 0) s = 9;
      c.hide(), c.show_number(32, s);
      const std::uint32_t n = c.u(32);
      e.u32(s).u32(n);
      return Case{mk<Stsz>(StszParameters{.version = ver, .flags = fl, .sample_size = s, .sample_count = n, .entry_sizes = {}}), e.v};
    }
    auto l = list<std::uint32_t>(c, {256, 65537}, [&] { return static_cast<std::uint32_t>(c.u(32)); });
    e.u32(0).u32(l.size());
    for (auto x : l) e.u32(x);
    return Case{mk<Stsz>(StszParameters{.version = ver, .flags = fl, .entry_sizes = l}), e.v};
  }, FRESH(Stsz));
  add("stco", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    auto l = list<std::uint32_t>(c, {256, 65537}, [&] { return static_cast<std::uint32_t>(c.u(32)); });
    e.full(ver, fl).u32(l.size());
    for (auto x : l) e.u32(x);
    return Case{mk<Stco>(StcoParameters{.version = ver, .flags = fl, .chunk_offsets = l}), e.v};
  }, FRESH(Stco));
  add("co64", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    auto l = list<std::uint64_t>(c, {256, 65537}, [&] { return c.u(64); });
    e.full(ver, fl).u32(l.size());
    for (auto x : l) e.u64(x);
    return Case{mk<Co64>(Co64Parameters{.version = ver, .flags = fl, .chunk_offsets = l}), e.v};
  }, FRESH(Co64));
  add("stss", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t ver = c.ver();
    Enc e;
    const auto l = list<std::uint32_t>(c, {256, 65537}, [&] { return static_cast<std::uint32_t>(c.u(32)); });
    e.full(ver, fl).u32(l.size());
    for (auto x : l) e.u32(x);
    return Case{mk<Stss>(StssParmeters{.version = ver, .flags = fl, .sample_numbers = l}), e.v};
  }, FRESH(Stss));
  add("sdtp", [](Ch& c) {
    Enc e;
    e.full(0, 0);
    auto l = list<std::array<std::uint8_t, 4>>(c, {256, 65537}, [&] { std::array<std::uint8_t, 4> a; for (auto& x : a) x = c.u(2); return a; }, false);
    std::vector<SdtpSample> v;
    for (auto& a : l) {
      for (auto x : a) e.bits(x, 2);
      v.push_back(SdtpSample({.is_leading = a[0], .sample_depends_on = a[1], .sample_is_depended_on = a[2], .sample_has_redundancy = a[3]}));
    }
    return Case{mk<Sdtp>(SdtpParameters{.samples = v}), e.v};
  }, FRESH(Sdtp));
  add("sbgp", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const std::uint32_t fl = c.u(24);
    const GroupingType g = c.arr<4>();
    const std::uint32_t gp = ver ? c.u(32) : 0;
    Enc e;
    e.full(ver, fl).bytes(g);
    if (ver) e.u32(gp);
    auto l = list<std::pair<std::uint32_t, std::uint32_t>>(c, {256, 65537}, [&] { const std::uint32_t a = c.u(32), b = c.u(32); return std::make_pair(a, b); });
    e.u32(l.size());
    std::vector<SbgpEntry> v;
    for (auto& [a, b] : l) {
      e.u32(a).u32(b);
      v.push_back(SbgpEntry({.sample_count = a, .group_description_index = b}));
    }
    return Case{mk<Sbgp>(SbgpParameters{.version = std::uint8_t(ver), .flags = fl, .grouping_type = g, .grouping_type_parameter = gp, .entries = v}), e.v};
  }, FRESH(Sbgp));
  add("sgpd", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::size_t g = c.pick(5);  // roll prol rap tele alst
    static const GroupingType types[] = {GroupingTypeRoll, GroupingTypeProl, GroupingTypeRap, GroupingTypeTele, GroupingTypeAlst};
    // 0: version 1 with a default length, 1: version 1 with a length for each entry, 2: version 2
    const std::size_t form = c.pick(g == 4 ? 2 : 3);
    const unsigned ver = form == 2 ? 2 : 1;
    c.show_bytes({types[g].begin(), types[g].end()});
    const std::uint32_t idx = c.u(32);
    const std::size_t at = c.shown.size() - 1;  // the default length or index
    auto length = [&](std::uint32_t x) {
      if (form == 1) c.show_number(32, x);
    };
    Enc body;
    std::uint32_t dl = g < 2 ? 2 : 1;
    std::vector<RollDistance> roll;
    std::vector<VisualRandomAccessEntry> rap;
    std::vector<TemporalLevelEntry> tele;
    std::vector<AlternativeStartupEntry> alst;
    std::size_t n = 0;
    if (g < 2) {
      auto l = list<std::int16_t>(c, {256}, [&] { length(2); return static_cast<std::int16_t>(c.i(16)); });
      n = l.size();
      for (auto x : l) {
        if (form == 1) body.u32(2);
        body.u16(x);
        roll.push_back(RollDistance({.description_length = form == 1 ? 2U : 0U, .roll_distance = x}));
      }
    } else if (g == 2) {
      auto l = list<std::pair<bool, std::uint8_t>>(c, {256}, [&] { length(1); const bool a = c.b(); const std::uint8_t b = c.u(7); return std::make_pair(a, b); });
      n = l.size();
      for (auto& [a, b] : l) {
        if (form == 1) body.u32(1);
        body.u8((a ? 0x80 : 0) | b);
        rap.push_back(VisualRandomAccessEntry({.description_length = form == 1 ? 1U : 0U, .num_leading_samples_known = a, .num_leading_samples = b}));
      }
    } else if (g == 3) {
      auto l = list<bool>(c, {256}, [&] { length(1); return c.b(); });
      n = l.size();
      for (bool a : l) {
        if (form == 1) body.u32(1);
        body.u8(a ? 0x80 : 0);
        tele.push_back(TemporalLevelEntry({.description_length = form == 1 ? 1U : 0U, .level_independently_decodable = a}));
      }
    } else {
      // with a default length every entry has the same number of offsets and options
      const std::size_t cnt = c.pick(3);
      std::size_t offs = c.pick(4), opts = c.pick(3);
      if (offs == 3) offs = 257;
      for (std::size_t k = 0; k < cnt; ++k) {
        if (form == 1 && k > 0) {
          offs = c.pick(3);
          opts = c.pick(3);
        }
        length(4 + 4 * offs + 4 * opts);
        c.show_number(16, offs);
        const std::uint16_t first = c.u(16);
        std::vector<std::uint32_t> so;
        for (std::size_t j = 0; j < offs; ++j) {
          if (j > 3) c.quiet = true;
          so.push_back(c.u(32));
        }
        c.quiet = false;
        std::vector<AlternativeStartupEntryOpt> op;
        Enc oe;
        for (std::size_t j = 0; j < opts; ++j) {
          const std::uint16_t a = c.u(16), b = c.u(16);
          op.push_back(AlternativeStartupEntryOpt({.num_output_samples = a, .num_total_samples = b}));
          oe.u16(a).u16(b);
        }
        const std::uint32_t len = 4 + 4 * so.size() + 4 * op.size();
        if (form == 1) body.u32(len);
        body.u16(so.size()).u16(first);
        for (auto x : so) body.u32(x);
        body.bytes(oe.v);
        dl = len;
        alst.push_back(AlternativeStartupEntry({.description_length = form == 1 ? len : 0U, .roll_count = std::uint16_t(so.size()),
                                                .first_output_sample = first, .sample_offsets = so, .opts = op}));
        ++n;
      }
    }
    if (form == 1) dl = 0;
    if (ver == 1) c.shown[at].v = dl;
    Enc e;
    e.full(ver, fl).bytes(types[g]).u32(ver == 1 ? dl : idx).u32(n).bytes(body.v);
    return Case{mk<Sgpd>(SgpdParameters{.version = std::uint8_t(ver), .flags = fl, .grouping_type = types[g], .default_length = ver == 1 ? dl : 0,
                                        .default_sample_description_index = ver == 1 ? 0 : idx, .roll_distances = roll,
                                        .alternative_startup_entries = alst, .visual_random_access_entries = rap, .temporal_level_entries = tele}), e.v};
  }, FRESH(Sgpd));
  add("elst", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const int w = ver ? 64 : 32;
    const std::uint32_t fl = c.u(24);
    Enc e;
    struct T { std::uint64_t d; std::int64_t t; std::int32_t r; };
    auto l = list<T>(c, {256, 65537}, [&] { T t; t.d = c.u(w); t.t = c.i(w); t.r = c.i(32); return t; });
    e.full(ver, fl).u32(l.size());
    std::vector<ElstEntry> v;
    for (auto& t : l) {
      e.un(t.d, w / 8).un(static_cast<std::uint64_t>(t.t), w / 8).u32(t.r);
      v.push_back(ElstEntry({.track_duration = t.d, .media_time = t.t, .media_rate = t.r}));
    }
    return Case{mk<Elst>(ElstParameters{.version = std::uint8_t(ver), .flags = fl, .entries = v}), e.v};
  }, FRESH(Elst));

  // ---- fragments
  add("tfdt", [](Ch& c) {
    const unsigned v = c.pick(2);
    const std::uint32_t fl = c.u(24);
    const std::uint64_t d = c.u(v ? 64 : 32);
    Enc e;
    e.full(v, fl).un(d, v ? 8 : 4);
    return Case{mk<Tfdt>(TfdtParameters{.version = std::uint8_t(v), .flags = fl, .base_media_decode_time = d}), e.v};
  }, FRESH(Tfdt));
  add("tfhd", [](Ch& c) {
    static const std::uint32_t bits[] = {0x1, 0x2, 0x8, 0x10, 0x20, 0x10000, 0x20000};
    std::uint32_t fl = 0;
    for (auto b : bits) if (c.pick(2)) fl |= b;
    const std::uint32_t id = c.u(32);
    const std::uint64_t off = fl & 1 ? c.u(64) : 0;
    const std::uint32_t sdi = fl & 2 ? c.u(32) : 0, dd = fl & 8 ? c.u(32) : 0, ds = fl & 0x10 ? c.u(32) : 0, df = fl & 0x20 ? c.u(32) : 0;
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(id);
    if (fl & 1) e.u64(off);
    if (fl & 2) e.u32(sdi);
    if (fl & 8) e.u32(dd);
    if (fl & 0x10) e.u32(ds);
    if (fl & 0x20) e.u32(df);
    return Case{mk<Tfhd>(TfhdParameters{.version = ver, .flags = fl, .track_id = id, .base_data_offset = off, .sample_description_index = sdi,
                                        .default_sample_duration = dd, .default_sample_size = ds, .default_sample_flags = df}), e.v};
  }, FRESH(Tfhd));
  add("trex", [](Ch& c) {
    const std::uint32_t fl = c.u(24), a = c.u(32), b = c.u(32), d = c.u(32), s = c.u(32), f = c.u(32);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u32(a).u32(b).u32(d).u32(s).u32(f);
    return Case{mk<Trex>(TrexParameters{.version = ver, .flags = fl, .track_id = a, .default_sample_description_index = b, .default_sample_duration = d,
                                        .default_sample_size = s, .default_sample_flags = f}), e.v};
  }, FRESH(Trex));
  add("trun", [](Ch& c) {
    static const std::uint32_t bits[] = {0x1, 0x4, 0x100, 0x200, 0x400, 0x800};
    const unsigned ver = c.pick(2);
    std::uint32_t fl = 0;
    for (auto b : bits) if (c.pick(2)) fl |= b;
    const std::int32_t off = fl & 1 ? c.i(32) : 0;
    const std::uint32_t fsf = fl & 4 ? c.u(32) : 0;
    Enc e;
    struct T { std::uint32_t d = 0, s = 0, f = 0; std::int64_t o = 0; };
    auto l = list<T>(c, {256}, [&] {
      T t;
      if (fl & 0x100) t.d = c.u(32);
      if (fl & 0x200) t.s = c.u(32);
      if (fl & 0x400) t.f = c.u(32);
      if (fl & 0x800) t.o = ver ? c.i(32) : static_cast<std::int64_t>(c.u(32));
      return t;
    }, false);
    c.shown.insert(c.shown.begin(), {'n', 32, l.size(), {}});
    e.full(ver, fl).u32(l.size());
    if (fl & 1) e.u32(off);
    if (fl & 4) e.u32(fsf);
    std::vector<TrunEntry> v;
    for (auto& t : l) {
      if (fl & 0x100) e.u32(t.d);
      if (fl & 0x200) e.u32(t.s);
      if (fl & 0x400) e.u32(t.f);
      if (fl & 0x800) e.u32(static_cast<std::uint32_t>(t.o));
      v.push_back(TrunEntry({.sample_duration = t.d, .sample_size = t.s, .sample_flags = t.f, .sample_composition_time_offset = t.o}));
    }
    return Case{mk<Trun>(TrunParameters{.version = std::uint8_t(ver), .flags = fl, .data_offset = off, .first_sample_flags = fsf, .entries = v}), e.v};
  }, FRESH(Trun));
  add("tfra", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const std::uint8_t a = c.pick(4), b = c.pick(4), d = c.pick(4);
    const std::uint32_t fl = c.u(24), id = c.u(32);
    for (auto x : {a, b, d}) c.show_number(2, x);
    const int w = ver ? 64 : 32;
    Enc e;
    struct T { std::uint64_t t, o; std::uint32_t x, y, z; };
    auto l = list<T>(c, {256}, [&] { T t; t.t = c.u(w); t.o = c.u(w); t.x = c.u(8 * (a + 1)); t.y = c.u(8 * (b + 1)); t.z = c.u(8 * (d + 1)); return t; });
    e.full(ver, fl).u32(id).bits(0, 26).bits(a, 2).bits(b, 2).bits(d, 2).u32(l.size());
    std::vector<TfraEntry> v;
    for (auto& t : l) {
      e.un(t.t, w / 8).un(t.o, w / 8).un(t.x, a + 1).un(t.y, b + 1).un(t.z, d + 1);
      v.push_back(TfraEntry({.time = t.t, .moof_offset = t.o, .traf_number = t.x, .trun_number = t.y, .sample_number = t.z}));
    }
    return Case{mk<Tfra>(TfraParameters{.version = std::uint8_t(ver), .flags = fl, .track_id = id, .length_size_of_traf_num = a,
                                        .length_size_of_trun_num = b, .length_size_of_sample_num = d, .entries = v}), e.v};
  }, FRESH(Tfra));
  add("sidx", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const int w = ver ? 64 : 32;
    const std::uint32_t fl = c.u(24), id = c.u(32), ts = c.u(32);
    const std::uint64_t ept = c.u(w), fo = c.u(w);
    Enc e;
    struct T { bool t; std::uint32_t s, d; bool p; std::uint8_t y; std::uint32_t x; };
    auto l = list<T>(c, {256, 65535}, [&] { T t; t.t = c.b(); t.s = c.u(31); t.d = c.u(32); t.p = c.b(); t.y = c.u(3); t.x = c.u(28); return t; });
    e.full(ver, fl).u32(id).u32(ts).un(ept, w / 8).un(fo, w / 8).u16(0).u16(l.size());
    std::vector<SidxReference> v;
    for (auto& t : l) {
      e.bits(t.t, 1).bits(t.s, 31).u32(t.d).bits(t.p, 1).bits(t.y, 3).bits(t.x, 28);
      v.push_back(SidxReference({.reference_type = t.t, .reference_size = t.s, .subsegument_duration = t.d, .starts_with_sap = t.p, .sap_type = t.y, .sap_delta_time = t.x}));
    }
    return Case{mk<Sidx>(SidxParameters{.version = std::uint8_t(ver), .flags = fl, .reference_id = id, .timescale = ts,
                                        .earliest_presentation_time = ept, .first_offset = fo, .references = v}), e.v};
  }, FRESH(Sidx));
  add("emsg", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const std::uint32_t fl = c.u(24);
    const std::string su = c.str(), va = c.str();
    const std::uint32_t ts = c.u(32);
    const std::uint64_t pt = c.u(ver ? 64 : 32);
    const std::uint32_t du = c.u(32), id = c.u(32);
    const Bytes d = c.blob();
    Enc e;
    e.full(ver, fl);
    if (ver == 0) e.cstr(su).cstr(va).u32(ts).u32(pt).u32(du).u32(id);
    else e.u32(ts).u64(pt).u32(du).u32(id).cstr(su).cstr(va);
    e.bytes(d);
    return Case{mk<Emsg>(EmsgParameters{.version = std::uint8_t(ver), .flags = fl, .scheme_uri = su, .value = va, .timescale = ts,
                                        .presentation_time = pt, .event_duration = du, .id = id, .message_data = d}), e.v};
  }, FRESH(Emsg));
  add("pssh", [](Ch& c) {
    const unsigned ver = c.pick(2);
    const std::uint32_t fl = c.u(24);
    const auto sid = c.arr<16>();
    Enc e;
    e.full(ver, fl).bytes(sid);
    std::vector<PsshKID> kids;
    if (ver) {
      auto l = list<std::array<std::uint8_t, 16>>(c, {256}, [&] { return c.arr<16>(); });
      e.u32(l.size());
      for (auto& a : l) {
        e.bytes(a);
        kids.push_back(PsshKID({.kid = a}));
      }
    }
    const Bytes d = c.blob();
    e.u32(d.size()).bytes(d);
    return Case{mk<Pssh>(PsshParameters{.version = std::uint8_t(ver), .flags = fl, .system_id = sid, .kids = kids, .data = d}), e.v};
  }, FRESH(Pssh));

  // ---- sample entries and codec configurations
  for (const char* t : {"avc1", "encv", "vp08", "vp09", "vp10", "av01"}) {
    const std::string type = t;
    add(type, [type](Ch& c) {
      const std::uint16_t dri = c.u(16), pd = c.u(16);
      std::array<std::uint32_t, 3> pd2;
      for (auto& x : pd2) x = c.u(32);
      const std::uint16_t w = c.u(16), h = c.u(16);
      const std::uint32_t hr = c.u(32), vr = c.u(32);
      const std::uint16_t fc = c.u(16);
      const auto name = c.arr<32>();
      c.hide(), c.show_bytes(Bytes(name.begin() + 1, name.begin() + 1 + std::min<std::size_t>(name[0], 31)));
      const std::uint16_t depth = c.u(16);
      const std::int16_t pd3 = c.i(16);
      Enc e;
      e.zero(6).u16(dri).u16(pd).u16(0);
      for (auto x : pd2) e.u32(x);
      e.u16(w).u16(h).u32(hr).u32(vr).u32(0).u16(fc).bytes(name).u16(depth).u16(pd3);
      return Case{mk<VisualSampleEntry>(VisualSampleEntryParameters{.type = BoxType(type), .data_reference_index = dri, .pre_defined = pd,
                    .pre_defined2 = pd2, .width = w, .height = h, .horizresolution = hr, .vertresolution = vr, .frame_count = fc,
                    .compressorname = name, .depth = depth, .pre_defined3 = pd3}), e.v, true};
    }, [type] { return std::static_pointer_cast<Box>(std::make_shared<VisualSampleEntry>(BoxType(type))); });
  }
  for (const char* t : {"mp4a", "enca", "Opus"}) {
    const std::string type = t;
    add(type, [type](Ch& c) {
      const std::size_t form = type == "Opus" ? c.pick(3) : c.pick(5);
      // 0: version 0, 1: version 0 or 1 without more, 2: inside wave, 3: version 1, 4: version 2
      Enc e;
      const std::uint16_t dri = c.u(16), cc = c.u(16), ss = c.u(16), pd = c.u(16);
      const std::uint32_t sr = c.u(32);
      if (form == 2) {
        c.shown.clear();
        const Bytes q = c.blob();
        AudioSampleEntryParameters p{.type = BoxType(type), .data_reference_index = dri, .entry_version = 0, .channel_count = cc, .sample_size = ss,
                                     .pre_defined = pd, .sample_rate = sr, .is_quick_time_compatible = true, .quick_time_data = q, .under_wave = true};
        Case r{mk<AudioSampleEntry>(p), q};
        r.prepare = [](Box* b) { dynamic_cast<AudioSampleEntry&>(*b).setUnderWave(true); };
        return r;
      }
      std::uint16_t ev = 0;
      Bytes q;
      bool qt = false;
      // the version of an Opus entry means nothing to its layout; other entries of version 1 and 2 carry more fields
      if (form == 1 && type == "Opus") {
        ev = c.u(16);
        if (ev == 1 || ev == 2) ev = 3;  // cannot be constructed
        c.hide();
        c.shown.insert(c.shown.begin() + 1, {'n', 16, ev, {}});
      }
      if (form == 3) { ev = 1; q = c.fixed(16); qt = true; }
      if (form == 4) { ev = 2; q = c.fixed(36); qt = true; }
      if (form == 3 || form == 4) c.shown.insert(c.shown.begin() + 1, {'n', 16, ev, {}});
      e.zero(6).u16(dri).u16(ev).zero(6).u16(cc).u16(ss).u16(pd).u16(0).u32(sr).bytes(q);
      AudioSampleEntryParameters p{.type = BoxType(type), .data_reference_index = dri, .entry_version = ev, .channel_count = cc, .sample_size = ss,
                                   .pre_defined = pd, .sample_rate = sr, .is_quick_time_compatible = qt, .quick_time_data = q};
      return Case{mk<AudioSampleEntry>(p), e.v, true};
    }, [type] { return std::static_pointer_cast<Box>(std::make_shared<AudioSampleEntry>(BoxType(type))); });
  }
  add("avcC", [](Ch& c) {
    static const std::uint8_t high[] = {0x64, 0x6e, 0x7a, 0x90, 0xf4, 0x56, 0x76, 0x80, 0x8a};
    static const std::uint8_t low[] = {0x42, 0x4d, 0x58, 0x53, 0, 0x63, 0x65, 0xff};
    const std::size_t form = c.pick(3);  // 0: not a high profile, 1: high without, 2: high with the fields of high profiles
    const std::uint8_t profile = form == 0 ? low[c.value(8)] : high[c.value(9)];
    const std::uint8_t cv = c.u(8), pc = c.u(8), lv = c.u(8), ls = c.u(2);
    c.shown.insert(c.shown.begin() + 1, {'n', 8, profile, {}});
    Enc e;
    e.u8(cv).u8(profile).u8(pc).u8(lv).u8(0xfc | ls);
    auto sets = [&](std::size_t max) {
      const std::size_t v = c.pick(4);
      const std::size_t n = v == 3 ? max : v;
      c.show_number(8, n);
      std::vector<Bytes> r;
      for (std::size_t i = 0; i < n; ++i) {
        if (i > 2) c.quiet = true;
        r.push_back(c.blob());
        c.shown.insert(c.shown.end() - 1, {'n', 16, r.back().size(), {}});
      }
      c.quiet = false;
      return r;
    };
    auto put = [&](const std::vector<Bytes>& l, std::vector<AVCParameterSet>* out) {
      for (auto& b : l) {
        e.u16(b.size()).bytes(b);
        out->push_back(AVCParameterSet({.nal_unit = b}));
      }
    };
    std::vector<AVCParameterSet> sps, pps, ext;
    const auto s = sets(31);
    e.u8(0xe0 | s.size());
    put(s, &sps);
    const auto p = sets(255);
    e.u8(p.size());
    put(p, &pps);
    std::uint8_t cf = 0, bl = 0, bc = 0;
    if (form == 2) {
      cf = c.u(2);
      bl = c.u(3);
      bc = c.u(3);
      e.u8(0xfc | cf).u8(0xf8 | bl).u8(0xf8 | bc);
      const auto x = sets(255);
      e.u8(x.size());
      put(x, &ext);
    }
    return Case{mk<AVCDecoderConfiguration>(AVCDecoderConfigurationParameters{.configuration_version = cv, .profile = profile, .profile_compatibility = pc,
                  .level = lv, .length_size_minus_one = ls, .sequence_parameter_sets = sps, .picture_parameter_sets = pps,
                  .high_profile_fields_enabled = form == 2, .chroma_format = cf, .bit_depth_luma_minus8 = bl, .bit_depth_chroma_minus8 = bc,
                  .sequence_parameter_sets_ext = ext}), e.v};
  }, FRESH(AVCDecoderConfiguration));
  add("vpcC", [](Ch& c) {
    const unsigned ver = c.pick(2) ? 0 : 1;
    const std::uint32_t fl = c.u(24);
    const std::uint8_t pr = c.u(8), lv = c.u(8), bd = c.u(4), cs = c.u(3), fr = c.u(1), cp = c.u(8), tc = c.u(8), mc_ = c.u(8);
    Enc e;
    e.full(ver, fl).u8(pr).u8(lv).bits(bd, 4).bits(cs, 3).bits(fr, 1).u8(cp).u8(tc).u8(mc_);
    Bytes d;
    if (ver) {
      d = c.pick(2) ? c.run(65535) : c.blob();
      e.u16(d.size()).bytes(d);
    }
    return Case{mk<VPCodecConfiguration>(VPCodecConfigurationParameters{.version = std::uint8_t(ver), .flags = fl, .profile = pr, .level = lv, .bit_depth = bd,
                  .chroma_sub_sampling = cs, .video_full_range_flag = fr, .colour_primaries = cp, .transfer_characteristics = tc,
                  .matrix_coefficients = mc_, .codec_initialization_data = d}), e.v};
  }, FRESH(VPCodecConfiguration));
  add("av1C", [](Ch& c) {
    const std::uint8_t mk_ = c.u(1), ve = c.u(7), sp = c.u(3), sl = c.u(5), st = c.u(1);
    const bool hb = c.b(), tb = c.b(), mo = c.b();
    const std::uint8_t sx = c.u(1), sy = c.u(1), cp = c.u(2);
    const bool ip = c.b();
    const std::uint8_t id = c.u(4);
    if (!ip) c.hide();
    const Bytes d = c.pick(2) ? c.big(70000) : c.blob();
    Enc e;
    e.bits(mk_, 1).bits(ve, 7).bits(sp, 3).bits(sl, 5).bits(st, 1).bits(hb, 1).bits(tb, 1).bits(mo, 1).bits(sx, 1).bits(sy, 1).bits(cp, 2).bits(0, 3)
        .bits(ip, 1).bits(id, 4).bytes(d);
    return Case{mk<AV1CodecConfiguration>(AV1CodecConfigurationParameters{.marker = mk_, .version = ve, .seq_profile = sp, .seq_level_idx_0 = sl,
                  .seq_tier_0 = st, .high_bitdepth = hb, .twelve_bit = tb, .monochrome = mo, .chroma_subsampling_x = sx, .chroma_subsampling_y = sy,
                  .chroma_sample_position = cp, .initial_presentation_delay_present = ip, .initial_presentation_delay_minus_one = id, .config_OBUs = d}), e.v};
  }, FRESH(AV1CodecConfiguration));
  add("dOps", [](Ch& c) {
    const bool table = c.pick(2);
    const std::uint8_t ve = c.u(8);
    std::uint8_t ch = 0;
    Bytes map;
    if (table) {
      static const std::size_t n[] = {2, 0, 1, 8, 255};
      const std::size_t v = c.pick(5);
      map = n[v] ? (v < 4 ? c.fixed(n[v]) : c.run(n[v])) : Bytes{};
      c.shown.resize(1);
      ch = static_cast<std::uint8_t>(map.size());
    } else {
      ch = c.u(8);
    }
    const std::uint16_t ps = c.u(16);
    const std::uint32_t sr = c.u(32);
    const std::int16_t og = c.i(16);
    std::uint8_t fam = 0, sc = 0, cc = 0;
    if (table) {
      fam = c.u(8);
      if (fam == 0) fam = 255;
      c.hide(), c.show_number(8, fam);
      sc = c.u(8);
      cc = c.u(8);
      c.show_bytes(map);
    }
    Enc e;
    e.u8(ve).u8(ch).u16(ps).u32(sr).u16(og).u8(fam);
    if (table) e.u8(sc).u8(cc).bytes(map);
    return Case{mk<DOps>(DOpsParameters{.version = ve, .output_channel_count = ch, .pre_skip = ps, .input_sample_rate = sr, .output_gain = og,
                  .channel_mapping_family = fam,
                  .channel_mapping_table = table ? DOpsChannelMappingTable({.stream_count = sc, .coupled_count = cc, .channel_mapping = map}) : DOpsChannelMappingTable()}), e.v};
  }, FRESH(DOps));
  add("pasp", [](Ch& c) {
    const std::uint32_t h = c.u(32), v = c.u(32);
    Enc e;
    e.u32(h).u32(v);
    return Case{mk<PixelAspectRatio>(PixelAspectRatioParameters{.h_spacing = h, .v_spacing = v}), e.v};
  }, FRESH(PixelAspectRatio));
  add("btrt", [](Ch& c) {
    const std::uint32_t a = c.u(32), b = c.u(32), d = c.u(32);
    Enc e;
    e.u32(a).u32(b).u32(d);
    return Case{mk<Btrt>(BtrtParameters{.decoding_buffer_size = a, .max_bitrate = b, .avg_bitrate = d}), e.v};
  }, FRESH(Btrt));
  add("fiel", [](Ch& c) {
    const std::uint8_t a = c.u(8), b = c.u(8);
    Enc e;
    e.u8(a).u8(b);
    return Case{mk<Fiel>(FielParameters{.field_count = a, .field_ordering = b}), e.v};
  }, FRESH(Fiel));
  add("colr", [](Ch& c) {
    static const char* types[] = {"nclx", "rICC", "prof", "nclc", "\xff\x80zz"};
    const std::size_t t = c.pick(5);
    const auto ty = to_arr<4>(types[t]);
    c.show_bytes(Bytes(ty.begin(), ty.end()));
    Enc e;
    e.bytes(ty);
    std::uint16_t cp = 0, tc = 0, mx = 0;
    bool fr = false;
    Bytes prof, unk;
    if (t == 0) {
      cp = c.u(16);
      tc = c.u(16);
      mx = c.u(16);
      fr = c.b();
      e.u16(cp).u16(tc).u16(mx).bits(fr, 1).bits(0, 7);
    } else if (t < 3) {
      prof = c.blob();
      e.bytes(prof);
    } else {
      unk = c.blob();
      e.bytes(unk);
    }
    return Case{mk<Colr>(ColrParameters{.colour_type = ty, .colour_primaries = cp, .transfer_characteristics = tc, .matrix_coefficients = mx,
                                        .full_range_flag = fr, .profile = prof, .unknown = unk}), e.v};
  }, FRESH(Colr));
  add("iods", [](Ch& c) {
    const std::uint32_t fl = c.u(24);
    const std::uint8_t tag = c.u(8);
    const std::uint16_t od = c.u(16);
    std::array<std::uint8_t, 5> l;
    for (auto& x : l) x = c.u(8);
    const std::uint8_t ver = c.ver();
    Enc e;
    e.full(ver, fl).u8(tag).u8(0x80).u8(0x80).u8(0x80).u8(7).u16(od).bytes(l);
    Case r{mk<Iods>(IodsParameters{.version = ver, .flags = fl, .type_tag = tag, .OD_ID = od, .OD_profile_level = l[0], .scene_profile_level = l[1],
                                   .audio_profile_level = l[2], .video_profile_level = l[3], .graphics_profile_level = l[4]}), e.v};
    // readers have to understand every form of the length, and descriptors behind the levels
    const int form = static_cast<int>(c.pick(4)) + 1;
    const std::size_t subs[] = {0, 3, 113, 120, 121, 300}, n = subs[c.pick(6)];
    if (min_length_bytes(7 + n) <= form) {
      Enc q;
      q.full(ver, fl).u8(tag).bytes(varint(7 + n, form)).u16(od).bytes(l).bytes(c.run(n));
      r.alt_box = r.box;
      r.alt_enc = q.v;
    }
    return r;
  }, FRESH(Iods));
  add("data", [](Ch& c) {
    static const std::uint32_t types[] = {1, 0, 2, 3, 14, 21, 22, 23, 4, 0x80000001, 0xffffffff};
    const std::uint32_t ty = types[c.pick(11)];
    if (ty != 0 && ty != 1 && ty != 2 && ty != 3 && ty != 14 && ty != 21 && ty != 22 && ty != 23) c.show_number(32, ty);
    const std::uint32_t la = c.u(32);
    const Bytes d = c.blob();
    if (ty == 1) c.shown.back().type = 't';
    Enc e;
    e.u32(ty).u32(la).bytes(d);
    return Case{mk<Data>(DataParameters{.data_type = static_cast<DataType>(ty), .data_lang = la, .data = d}), e.v};
  }, FRESH(Data));

  add("esds", esds_case, FRESH(Esds));

  // ---- boxes that hold boxes only
#define PLAIN(T, B) add(T, [](Ch&) { return Case{std::make_shared<B>(), {}, true}; }, FRESH(B))
  PLAIN("moov", Moov);
  PLAIN("trak", Trak);
  PLAIN("mdia", Mdia);
  PLAIN("minf", Minf);
  PLAIN("stbl", Stbl);
  PLAIN("dinf", Dinf);
  PLAIN("edts", Edts);
  PLAIN("udta", Udta);
  PLAIN("mvex", Mvex);
  PLAIN("moof", Moof);
  PLAIN("traf", Traf);
  PLAIN("mfra", Mfra);
  PLAIN("sinf", Sinf);
  PLAIN("schi", Schi);
  PLAIN("ilst", Ilst);
  PLAIN("wave", Wave);
  for (const char* t : {"----", "covr", "\xa9" "nam", "trkn"}) {
    const std::string type = t;
    BoxType bt(to_arr<4>(type));
    add(type, [bt](Ch&) { return Case{mk<IlstMeta>(IlstMetaParameters{.type = bt}), {}, true}; },
        [bt] { auto p = std::make_shared<IlstMeta>(IlstMetaParameters{.type = bt}); return std::static_pointer_cast<Box>(p); });
  }
  return k;
}

// ------------------------------------------------------------------ exploration
// every structure of a kind: f(path, number of values of each field of the default point)
static void structures(const Kind& k, const std::function<void(const std::vector<std::size_t>&, const std::vector<std::size_t>&)>& f) {
  std::vector<std::size_t> path;
  for (;;) {
    Ch c;
    c.path = path;
    k.gen(c);
    path = c.path;
    path.resize(c.at);
    f(path, c.nval);
    std::size_t i = c.at;
    while (i > 0 && path[i - 1] + 1 >= c.radix[i - 1]) --i;
    if (i == 0) return;
    ++path[i - 1];
    path.resize(i);
  }
}
