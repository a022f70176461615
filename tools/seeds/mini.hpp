#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace shiguredo::mp4;
using std::string;
using u64 = std::uint64_t;
inline u64 be(const string& s, u64 o, int n) {
  u64 v = 0;
  for (int i = 0; i < n; ++i) v = v << 8 | static_cast<std::uint8_t>(s.at(o + i));
  return v;
}
struct B { string t; u64 off = 0, hdr = 8, size = 0; u64 data() const { return off + hdr; } u64 end() const { return off + size; } };
inline std::vector<B> kids(const string& s, u64 from, u64 to) {
  std::vector<B> r;
  while (from < to) {
    B b{s.substr(from + 4, 4), from, 8, be(s, from, 4)};
    if (b.size == 1) { b.size = be(s, from + 8, 8); b.hdr = 16; }
    if (b.size < b.hdr || b.size > to - from) throw std::runtime_error("box " + b.t);
    r.push_back(b);
    from += b.size;
  }
  return r;
}
// path such as "moov/trak.1/mdia": .n selects the n-th box of the type
inline B find(const string& s, const string& path) {
  u64 from = 0, to = s.size();
  B b;
  std::istringstream is(path);
  for (string p; std::getline(is, p, '/');) {
    const int n = p.size() > 4 ? p[5] - '0' : 0;
    int k = 0;
    bool ok = false;
    for (auto& x : kids(s, from, to))
      if (x.t == p.substr(0, 4) && k++ == n) { b = x; ok = true; break; }
    if (!ok) throw std::runtime_error("no " + path);
    from = b.data(); to = b.end();
    if (b.t == "stsd" || b.t == "dref") from += 8;
    else if (b.t == "meta") from += 4;
    else if (b.t == "avc1" || b.t == "vp09" || b.t == "vp08" || b.t == "av01") from += 78;
    else if (b.t == "mp4a" || b.t == "Opus") from += 28;
  }
  return b;
}
inline string body(const string& s, const string& path) { const B b = find(s, path); return s.substr(b.data(), b.size - b.hdr); }
inline std::vector<string> samples(const string& s, int track) {
  const string st = "moov/trak." + std::to_string(track) + "/mdia/minf/stbl/";
  const string sz = body(s, st + "stsz"), sc = body(s, st + "stsc"), co = body(s, st + "stco");
  std::vector<string> r;
  u64 e = 0;
  for (u64 c = 1; c <= be(co, 4, 4); ++c) {
    while (e + 1 < be(sc, 4, 4) && be(sc, 8 + 12 * (e + 1), 4) <= c) ++e;
    u64 o = be(co, 4 + 4 * c, 4);
    for (u64 k = be(sc, 12 + 12 * e, 4); k > 0; --k) {
      const u64 n = be(sz, 4, 4) ? be(sz, 4, 4) : be(sz, 12 + 4 * r.size(), 4);
      r.push_back(s.substr(o, n));
      o += n;
    }
  }
  if (r.size() != be(sz, 8, 4)) throw std::runtime_error("sample count");
  return r;
}
inline string finish(writer::SimpleWriter& w, std::ostringstream& os, std::vector<track::Track*> t) {
  w.appendTrakAndUdtaBoxInfo(t);
  w.writeFreeBoxAndMdatHeader();
  w.writeMoovBox();
  return os.str().substr(0, static_cast<std::size_t>(os.tellp()));
}
inline string finish(writer::FaststartWriter& w, std::ostringstream& os, std::vector<track::Track*> t) {
  w.appendTrakAndUdtaBoxInfo(t);
  w.writeMoovBox();
  w.writeMdatHeader();
  w.copyMdatData();
  return os.str();
}
inline std::vector<std::uint8_t> fill(std::size_t n, int v = 7) { return std::vector<std::uint8_t>(n, static_cast<std::uint8_t>(v)); }
// write the box's data, read it into a fresh one, write that again
inline string out(const Box& b) { std::ostringstream os; b.writeData(os); return os.str(); }
inline string again(Box& fresh, const string& d) { std::istringstream is(d); fresh.readData(is); return out(fresh); }
// runs the reader on a file's bytes; returns the dump, or "!" + message
#include "shiguredo/mp4/reader/reader.hpp"
inline string dump(const string& d) {
  std::istringstream is(d);
  std::ostringstream os;
  auto* old = std::cout.rdbuf(os.rdbuf());
  string r;
  try { reader::SimpleReader rd(is); rd.read(); r = os.str(); } catch (const std::exception& e) { r = string("!") + e.what(); }
  std::cout.rdbuf(old);
  return r;
}
inline string str32(u64 v) { string r; for (int i = 24; i >= 0; i -= 8) r += char(v >> i); return r; }
inline string boxs(const string& t, const string& d) { return str32(8 + d.size()) + t + d; }
