// Generated files: box trees together with what has to be printed about them, and a model of the reader.
#pragma once

#include "mux.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"

using namespace mx;

// ---------------------------------------------------------------- what is printed
struct Line {
  int depth = 0;
  string type;  // four bytes
  u64 off = 0, size = 0;
  Bytes fields;        // the box's own data
  bool wave = false;   // directly inside a wave box
  bool described = true;
};

inline string shown(const string& type) {
  bool printable = true;
  string t;
  for (unsigned char c : type) {
    printable = printable && ((c >= 0x20 && c < 0x7f) || c == 0xa9);
    t += c == 0xa9 ? string("\xc2\xa9") : string(1, static_cast<char>(c));
  }
  if (printable) return t;
  char b[16];
  snprintf(b, sizeof b, "0x%02x%02x%02x%02x", (unsigned char)type[0], (unsigned char)type[1], (unsigned char)type[2], (unsigned char)type[3]);
  return b;
}

inline lib::BoxMap& registry() {
  static lib::BoxMap bm;
  static bool done = (lib::register_box_map(&bm), true);
  (void)done;
  return bm;
}
// what a box of these fields says about itself: the boxes' own codec, which P13 and P14 decide
inline const string& description(const string& type, const Bytes& fields, bool wave) {
  static std::map<std::tuple<string, Bytes, bool>, string> cache;
  auto key = std::make_tuple(type, fields, wave);
  auto i = cache.find(key);
  if (i != cache.end()) return i->second;
  if (cache.size() > 20000) cache.clear();
  lib::BoxType bt;
  bt.setData(type[0], type[1], type[2], type[3]);
  std::unique_ptr<lib::Box> b(registry().getBoxInstance(bt));
  if (wave)
    if (auto* a = dynamic_cast<lib::box::AudioSampleEntry*>(b.get())) a->setUnderWave(true);
  std::istringstream is(ut::str(fields));
  b->readData(is);
  string d = b->toStringOnlyData();
  // one line per box: line breaks in texts are shown escaped
  string e;
  for (char c : d) e += c == '\n' ? "\\n" : c == '\r' ? "\\r" : string(1, c);
  return cache[key] = e.empty() ? "" : " " + e;
}
inline string text(const vector<Line>& l) {
  string s;
  for (auto& x : l)
    s += string(2 * static_cast<std::size_t>(x.depth), ' ') + "[" + shown(x.type) + "] Offset=" + to_string(x.off) + " Size=" + to_string(x.size) +
         description(x.type, x.fields, x.wave) + "\n";
  return s;
}

// ---------------------------------------------------------------- generated files
struct NodeKind {
  string name, type;
  Bytes fields;
  bool container;
};
inline Bytes cat(std::initializer_list<Bytes> l) {
  Bytes r;
  for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
  return r;
}
inline Bytes sample_entry(int version) {
  ut::Enc e;
  e.zero(6).u16(1).u16(static_cast<std::uint64_t>(version)).zero(6).u16(2).u16(16).u32(0).u32(48000U << 16);
  if (version == 1) e.zero(16);
  if (version == 2) e.zero(36);
  return e.v;
}
inline const vector<NodeKind>& node_kinds() {
  static const vector<NodeKind> k = [] {
    vector<NodeKind> r;
    auto s = [](const string& t) { return Bytes(t.begin(), t.end()); };
    auto add = [&](const string& n, const string& t, const Bytes& f, bool c) { r.push_back({n, t, f, c}); };
    // the first ones stand for their classes in deeper trees
    add("moov", "moov", {}, true);
    add("opaque", "zzzz", cat({{0, 0, 0, 9}, s("freeX")}), false);
    add("stsd", "stsd", {0, 0, 0, 0, 0, 0, 0, 1}, true);
    add("empty", "free", {}, false);
    add("stts", "stts", ut::Enc().u32(0).u32(2).u32(1).u32(2).u32(3).u32(4).v, false);
    add("avc1", "avc1", ut::Enc().zero(6).u16(1).zero(16).u16(640).u16(480).u32(0x480000).u32(0x480000).u32(0).u16(1).zero(32).u16(24).u16(0xffff).v, true);
    add("meta", "meta", {0, 0, 0, 0}, true);
    add("wave", "wave", {}, true);
    add("mp4a", "mp4a", sample_entry(0), true);
    add("mp4a1", "mp4a", sample_entry(1), true);
    add("mdat", "mdat", {1, 2, 3}, false);
    add("mvhd", "mvhd", ut::Enc().u32(0).u32(1).u32(2).u32(1000).u32(5).u32(0x10000).u16(0x100).zero(10).zero(36).zero(24).u32(2).v, false);
    // the rest
    add("dref", "dref", {0, 0, 0, 0, 0, 0, 0, 1}, true);
    add("ilst", "ilst", {}, true);
    add("ilst entry", "----", {}, true);
    add("name entry", "\251nam", {}, true);
    add("binary type", string("\x01\x00\xff\x7f", 4), {0xff}, false);
    add("url", "url ", {0, 0, 0, 1}, false);
    add("urls", "url ", cat({{0, 0, 0, 0}, s("http://x"), {0}}), false);
    add("ftyp", "ftyp", cat({s("isom"), {0, 0, 2, 0}, s("isommp41")}), false);
    add("mvhd1", "mvhd", ut::Enc().u32(0x01000000).u64(1).u64(2).u32(1000).u64(5).u32(0x10000).u16(0x100).zero(10).zero(36).zero(24).u32(2).v, false);
    add("hdlr", "hdlr", cat({ut::Enc().u32(0).u32(0).str("soun").zero(12).v, s("two\r\nlines"), {0}}), false);
    add("skip", "skip", {0, 0, 0, 8}, false);
    add("mp4a2", "mp4a", sample_entry(2), true);
    add("Opus", "Opus", sample_entry(0), true);
    add("moof", "moof", {}, true);
    add("mfhd", "mfhd", {0, 0, 0, 0, 0, 0, 0, 7}, false);
    add("stsz", "stsz", ut::Enc().u32(0).u32(5).u32(1000).v, false);
    for (const char* t : {"trak", "mdia", "minf", "stbl", "dinf", "edts", "udta", "mvex", "traf", "mfra", "sinf", "schi"}) add(t, t, {}, true);
    // and every other type the library knows
    using ut::Enc;
    const Bytes visual = Enc().zero(6).u16(1).zero(16).u16(640).u16(480).u32(0x480000).u32(0x480000).u32(0).u16(1).zero(32).u16(24).u16(0xffff).v;
    for (const char* t : {"encv", "vp08", "vp09", "vp10", "av01"}) add(t, t, visual, true);
    add("enca", "enca", sample_entry(0), true);
    add("btrt", "btrt", Enc().u32(1).u32(2).u32(3).v, false);
    add("co64", "co64", Enc().u32(0).u32(2).u64(5).u64(6).v, false);
    add("stco", "stco", Enc().u32(0).u32(2).u32(5).u32(6).v, false);
    add("colr nclx", "colr", Enc().str("nclx").u16(1).u16(2).u16(3).u8(0x80).v, false);
    add("colr rICC", "colr", Enc().str("rICC").u16(1).u16(2).u16(3).v, false);
    add("ctts", "ctts", Enc().u32(0).u32(1).u32(1).u32(2).v, false);
    add("data", "data", Enc().u32(1).u32(0).str("text").v, false);
    add("dOps", "dOps", Enc().u8(0).u8(2).u16(312).u32(48000).u16(0).u8(0).v, false);
    add("elst", "elst", Enc().u32(0).u32(1).u32(7).u32(0xffffffff).u32(0x10000).v, false);
    add("emsg", "emsg", cat({Enc().u32(0).v, s("urn"), {0}, s("v"), {0}, Enc().u32(1).u32(2).u32(3).u32(4).v, s("message")}), false);
    add("esds", "esds", Enc().u32(0).u8(3).u8(3).u16(0).u8(0).v, false);
    add("fiel", "fiel", {1, 6}, false);
    add("iods", "iods", Enc().u32(0).u8(0x10).u8(7).u16(0x4f).zero(5).v, false);
    add("mdhd", "mdhd", Enc().u32(0).u32(1).u32(2).u32(1000).u32(5).u16(0x55c4).u16(0).v, false);
    add("mehd", "mehd", Enc().u32(0).u32(9).v, false);
    add("mfro", "mfro", Enc().u32(0).u32(9).v, false);
    add("pssh", "pssh", cat({Enc().u32(0).v, Bytes(16, 3), Enc().u32(2).v, {1, 2}}), false);
    add("sbgp", "sbgp", Enc().u32(0).str("roll").u32(1).u32(5).u32(1).v, false);
    add("sgpd", "sgpd", Enc().u32(0x01000000).str("roll").u32(2).u32(1).u16(0xffff).v, false);
    add("sdtp", "sdtp", {0, 0, 0, 0, 0x10, 0x20}, false);
    add("sidx", "sidx", Enc().u32(0).u32(1).u32(1000).u32(0).u32(0).u16(0).u16(1).u32(100).u32(200).u32(0x90000000).v, false);
    add("smhd", "smhd", Enc().u32(0).u16(0).u16(0).v, false);
    add("stsc", "stsc", Enc().u32(0).u32(1).u32(1).u32(2).u32(1).v, false);
    add("stss", "stss", Enc().u32(0).u32(2).u32(1).u32(5).v, false);
    add("styp", "styp", cat({s("msdh"), {0, 0, 0, 0}, s("msdh")}), false);
    add("tfdt", "tfdt", Enc().u32(0).u32(7).v, false);
    add("tfhd", "tfhd", Enc().u32(0).u32(1).v, false);
    add("tfra", "tfra", Enc().u32(0).u32(1).u32(0).u32(1).u32(5).u32(6).u8(1).u8(1).u8(1).v, false);
    add("tkhd", "tkhd", Enc().u32(3).u32(1).u32(2).u32(1).u32(0).u32(5).zero(8).zero(8).zero(36).u32(640U << 16).u32(480U << 16).v, false);
    add("trex", "trex", Enc().u32(0).u32(1).u32(1).u32(0).u32(0).u32(0).v, false);
    add("trun", "trun", Enc().u32(0x301).u32(1).u32(8).u32(1000).u32(50).v, false);
    add("vmhd", "vmhd", Enc().u32(1).zero(8).v, false);
    add("urn", "urn ", cat({{0, 0, 0, 0}, s("urn:x"), {0}, s("loc"), {0}}), false);
    add("avcC", "avcC", {1, 0x42, 0, 30, 0xff, 0xe1, 0, 1, 0x67, 1, 0, 1, 0x68}, false);
    add("vpcC", "vpcC", Enc().u32(0x01000000).u8(0).u8(31).u8(0x82).u8(1).u8(1).u8(1).u16(0).v, false);
    add("av1C", "av1C", {0x81, 0x08, 0x0c, 0x00, 0x0a}, false);
    add("pasp", "pasp", Enc().u32(1).u32(1).v, false);
    for (const char* t : {"aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk", "egid", "geID", "gnre", "pcst", "pgap", "plID", "purd", "purl",
                          "rtng", "sfID", "soaa", "soal", "soar", "soco", "sonm", "sosn", "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn"})
      add(t, t, {}, true);
    return r;
  }();
  return k;
}

enum Form { SMALL, LARGE, TO_EOF };
struct Item {
  int depth, kind, form;
};

struct Gen {
  string bytes;
  vector<Line> lines;
};
// the file of a list of items in file order
inline Gen generate(const vector<Item>& l) {
  Gen g;
  // sizes, from the end
  vector<u64> size(l.size());
  for (std::size_t i = l.size(); i-- > 0;) {
    size[i] = (l[i].form == LARGE ? 16 : 8) + node_kinds()[static_cast<std::size_t>(l[i].kind)].fields.size();
    for (std::size_t j = i + 1; j < l.size() && l[j].depth > l[i].depth; ++j)
      if (l[j].depth == l[i].depth + 1) size[i] += size[j];
  }
  ut::Enc e;
  vector<string> path;
  for (std::size_t i = 0; i < l.size(); ++i) {
    const auto& k = node_kinds()[static_cast<std::size_t>(l[i].kind)];
    path.resize(static_cast<std::size_t>(l[i].depth));
    g.lines.push_back({l[i].depth, k.type, e.v.size(), size[i], k.fields, !path.empty() && path.back() == "wave"});
    path.push_back(k.type);
    e.u32(l[i].form == LARGE ? 1 : l[i].form == TO_EOF ? 0 : size[i]).str(k.type);
    if (l[i].form == LARGE) e.u64(size[i]);
    e.bytes(k.fields);
  }
  g.bytes = ut::str(e.v);
  return g;
}
inline string name(const vector<Item>& l) {
  string s;
  for (auto& i : l)
    s += (s.empty() ? "" : " ") + string(static_cast<std::size_t>(i.depth), '>') + node_kinds()[static_cast<std::size_t>(i.kind)].name + (i.form == LARGE ? "(64)" : i.form == TO_EOF ? "(eof)" : "");
  return s;
}

constexpr int CORE_KINDS = 40;  // those before "every other type the library knows"

// every tree of n boxes over the first nk kinds; forms: 1 only short headers, 2 also long ones, 3 also to the end of the file
inline void trees(int n, int nk, int forms, const std::function<void(const vector<Item>&)>& f) {
  vector<Item> l(static_cast<std::size_t>(n));
  std::function<void(int)> form = [&](int i) {
    if (i == n) return f(l);
    bool last = true;
    for (int j = i + 1; j < n; ++j) last = last && l[static_cast<std::size_t>(j)].depth > l[static_cast<std::size_t>(i)].depth;
    for (int q = 0; q < (last ? forms : std::min(forms, 2)); ++q) {
      l[static_cast<std::size_t>(i)].form = q;
      form(i + 1);
    }
  };
  std::function<void(int)> rec = [&](int i) {
    if (i == n) return form(0);
    for (int k = 0; k < nk; ++k)
      for (int d = 0; d <= (i ? l[static_cast<std::size_t>(i) - 1].depth + 1 : 0); ++d) {
        if (d > 0) {
          int p = i - 1;
          while (l[static_cast<std::size_t>(p)].depth >= d) --p;
          const auto& pk = node_kinds()[static_cast<std::size_t>(l[static_cast<std::size_t>(p)].kind)];
          if (!pk.container) continue;
          // an audio sample entry inside wave is opaque
          if (pk.type == "mp4a" || pk.type == "Opus") {
            int q = p - 1;
            while (q >= 0 && l[static_cast<std::size_t>(q)].depth >= l[static_cast<std::size_t>(p)].depth) --q;
            if (q >= 0 && node_kinds()[static_cast<std::size_t>(l[static_cast<std::size_t>(q)].kind)].type == "wave" && l[static_cast<std::size_t>(p)].depth > 0) continue;
          }
        }
        l[static_cast<std::size_t>(i)] = {d, k, SMALL};
        rec(i + 1);
      }
  };
  rec(0);
}

// ---------------------------------------------------------------- the model reader
struct Malformed {};
struct Unknown {};  // a type whose fields the model does not know

inline const std::set<string>& opaque_types() {
  static const std::set<string> s = {"free", "skip", "mdat", "zzzz", string("\x01\x00\xff\x7f", 4), string(4, '\0')};
  return s;
}
inline u64 own_fields(const string& t, const string& d, bool wave) {
  auto need = [&](u64 n) {
    if (d.size() < n) throw Malformed();
    return n;
  };
  static const std::set<string> none = {"moov", "trak", "mdia", "minf", "stbl", "dinf", "edts", "udta", "mvex", "moof", "traf", "mfra", "sinf", "schi", "ilst", "wave", "----", "\251nam"};
  if (opaque_types().count(t)) return d.size();
  static const std::set<string> items = {"aART", "akID", "covr", "desc", "disk", "trkn", "tmpo", "stik", "tvsn"};
  if (none.count(t) || items.count(t)) return 0;
  static const std::set<string> visual = {"avc1", "encv", "vp08", "vp09", "vp10", "av01"};
  if (t == "stsd" || t == "dref" || t == "mfhd") return need(8);
  if (visual.count(t)) return need(78);
  if (t == "meta") return need(4), d.substr(0, 4) == string(4, '\0') ? 4 : 0;
  if (t == "mp4a" || t == "Opus" || t == "enca") {
    if (wave) return d.size();
    need(28);
    const u64 v = ut::be(d, 8, 2);
    if (t == "Opus" || v == 0 || d.size() == 28) return 28;
    return v == 1 ? need(44) : v == 2 ? need(64) : d.size();
  }
  if (t == "stts") return need(8), need(8 + 8 * ut::be(d, 4, 4));
  static const std::map<string, u64> plain = {{"btrt", 12}, {"fiel", 2}, {"pasp", 8}};
  if (plain.count(t)) return need(plain.at(t));
  static const std::map<string, u64> fixed = {{"smhd", 8}, {"vmhd", 12}, {"mfro", 8}, {"tfdt", 8}, {"mehd", 8}, {"trex", 24}, {"mdhd", 24}, {"tkhd", 84}};
  static const std::map<string, u64> tables = {{"stco", 4}, {"co64", 8}, {"stss", 4}, {"stsc", 12}, {"ctts", 8}, {"elst", 12}};
  if (fixed.count(t) || tables.count(t)) {
    need(4);
    if (d[0] != 0) throw Unknown();
    if (fixed.count(t)) return need(fixed.at(t));
    return need(8), need(8 + tables.at(t) * ut::be(d, 4, 4));
  }
  if (t == "mvhd") {
    need(4);
    if (static_cast<unsigned char>(d[0]) > 1) throw Unknown();
    return need(d[0] == 0 ? 100 : 112);
  }
  throw Unknown();
}
inline void model(const string& s, u64 from, u64 end, int depth, bool wave, vector<Line>* out) {
  u64 p = from;
  while (p < end) {
    if (depth >= 256) throw Malformed();
    if (s.size() - p < 8) throw Malformed();
    u64 size = ut::be(s, p, 4), hdr = 8;
    const string type = s.substr(p + 4, 4);
    if (size == 0) size = s.size() - p;
    else if (size == 1) {
      if (s.size() - p < 16) throw Malformed();
      size = ut::be(s, p + 8, 8);
      hdr = 16;
    }
    if (size < hdr || size > end - p) throw Malformed();
    const string d = s.substr(p + hdr, size - hdr);
    const u64 own = own_fields(type, d, wave);
    // a meta box is recognised by its first bytes, even those that are not its own
    out->push_back({depth, type, p, size, ut::bytes(d.substr(0, type == "meta" ? 4 : own)), wave});
    model(s, p + hdr + own, p + size, depth + 1, type == "wave", out);
    p += size;
  }
}
inline int model(const string& s, vector<Line>* out) {  // 1 well-formed, 0 not, -1 the model does not know
  try {
    model(s, 0, s.size(), 0, false, out);
    return 1;
  } catch (Malformed&) {
    return 0;
  } catch (Unknown&) {
    return -1;
  }
}
