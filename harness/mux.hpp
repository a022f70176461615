// Muxing histories run on the real writers and tracks, and a reference parser with oracles for the finished files.
// Nothing here uses the library to read anything.
#pragma once

#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include "mc.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "util.hpp"

namespace mx {

using std::string;
using std::to_string;
using std::vector;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using ut::Bytes;
namespace lib = shiguredo::mp4;

inline std::int64_t g_clock = 1700000000;  // what every real-time clock says while a case runs

enum Kind { VP8, VP9, AV1, H264, AAC, OPUS, MP3, NKIND };
inline const char* kname(Kind k) {
  static const char* n[] = {"VP8", "VP9", "AV1", "H264", "AAC", "Opus", "MP3"};
  return n[k];
}
inline bool is_video(Kind k) { return k <= H264; }

struct TSpec {
  Kind k = VP9;
  u32 ts = 1000;
  float dur = 1;
  i64 mt = 0;
  u32 id = 0;  // 0: handed out by the writer
  u32 w = 640, h = 480, maxbr = 250000, avgbr = 125000, buf = 768;
  u16 seq_profile = 0, seq_level = 8, seq_tier = 0, csx = 1, csy = 1, csp = 0;
  Bytes obus = {0x0a, 0x0b, 0, 0, 0, 0x2c};
  u64 pre_skip = 312;
  std::int16_t roll = -4;
  u8 conf = 1, profile = 0x42, compat = 0xc0, level = 31;
  bool ps = false;  // H264: key samples come with their parameter sets

  u32 timescale() const { return k == OPUS ? 48000 : ts; }
};

struct Op {
  int t = 0;
  bool term = false;
  u64 size = 1;
  bool key = false;
  u64 ts = 0;
  bool ptr = false;           // pointer form of addData
  const u8* data = nullptr;   // given payload (not for H264), else generated
  int set = 0;                // 1: the media time is set to ts, 2: the configuration OBUs to size times size
};

struct Hist {
  bool fast = false;
  u32 mvts = 1000;
  float dur = 1;
  string pattern;  // of the intermediate file, empty: default
  int ftyp = 0;    // which file type setting
  vector<TSpec> tr;
  vector<Op> ops;
  vector<int> order;  // of the tracks when handed over; empty: as constructed

  string str() const {
    std::ostringstream s;
    s << (fast ? "faststart" : "simple") << " mvhd_timescale=" << mvts << " duration=" << dur << " ftyp=" << ftyp << " tracks=[";
    for (auto& t : tr) {
      s << kname(t.k) << "(ts=" << t.timescale() << " dur=" << t.dur << " mt=" << t.mt;
      if (t.id) s << " id=" << t.id;
      s << ")";
    }
    s << "] ops:";
    std::size_t n = 0;
    for (auto& o : ops) {
      if (++n > 40) {
        s << " ... (" << ops.size() << ")";
        break;
      }
      if (o.set)
        s << (o.set == 1 ? " setMediaTime(" : " setConfigOBUs(") << o.t << "," << (o.set == 1 ? i64(o.ts) : i64(o.size)) << ")";
      else if (o.term)
        s << " term(" << o.t << ")";
      else
        s << " add(" << o.t << ",ts=" << o.ts << ",size=" << o.size << (o.key ? ",key" : "") << (o.ptr ? ",ptr" : "") << ")";
    }
    if (!order.empty()) {
      s << " order:";
      for (int i : order) s << " " << i;
    }
    return s.str();
  }
};

// the n-th payload of track t: no zero bytes, differs for every (t, n)
inline Bytes payload(int t, u64 n, u64 size) {
  Bytes b(size);
  u64 x = (u64(t) + 1) * 7919 + n * 104729;
  for (u64 i = 0; i < size; ++i) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    b[i] = static_cast<u8>(1 + (x >> 33) % 255);
  }
  return b;
}

struct Expect {  // per track, from the history alone
  vector<Bytes> data;        // stored sample; empty entry with given payload for huge ones
  vector<const u8*> ext;     // external payload or null
  vector<u64> size, ts;
  vector<bool> key;
  vector<u32> chunks;        // number of samples
};

inline Bytes stored(const TSpec& t, int ti, u64 n, const Op& o) {
  if (t.k != H264) return payload(ti, n, o.size);
  Bytes nal = payload(ti, n, std::max<u64>(o.size, 1));
  nal[0] = o.key ? 0x65 : 0x41;
  return ut::cat({ut::Enc().u32(nal.size()).v, nal});
}
inline const Bytes SPS = {0x67, 0x4d, 0x40, 0x1e, 0xec, 0xa0}, PPS = {0x68, 0xce, 0x3c};
inline Bytes input(const TSpec& t, int ti, u64 n, const Op& o) {
  if (t.k != H264) return payload(ti, n, o.size);
  Bytes s = stored(t, ti, n, o);
  Bytes r;
  if (t.ps && o.key) r = ut::cat({{0, 0, 0, 1}, SPS, {0, 0, 1}, PPS});
  const Bytes sc = n % 2 ? Bytes{0, 0, 1} : Bytes{0, 0, 0, 1};
  r.insert(r.end(), sc.begin(), sc.end());
  r.insert(r.end(), s.begin() + 4, s.end());
  return r;
}

inline vector<Expect> expect(const Hist& h) {
  vector<Expect> e(h.tr.size());
  vector<u32> open(h.tr.size(), 0);
  for (auto& o : h.ops) {
    auto& x = e[o.t];
    if (o.term) {
      if (open[o.t]) x.chunks.push_back(open[o.t]);
      open[o.t] = 0;
      continue;
    }
    ++open[o.t];
    const u64 n = x.ts.size();
    if (o.data) {
      x.data.push_back({});
      x.size.push_back(o.size);
    } else {
      x.data.push_back(stored(h.tr[o.t], o.t, n, o));
      x.size.push_back(x.data.back().size());
    }
    x.ext.push_back(o.data);
    x.ts.push_back(o.ts);
    x.key.push_back(o.key);
  }
  for (std::size_t i = 0; i < e.size(); ++i)
    if (open[i]) e[i].chunks.push_back(open[i]);
  return e;
}

struct Ftyp {
  string major;
  u32 minor;
  vector<string> compat;
};
inline Ftyp ftyp(int i) {
  switch (i) {
    case 1: return {"mp42", 0, {"mp41", "avc1"}};
    case 2: return {"iso2", 0xfffffffe, {"isom"}};
    default: return {"isom", 512, {"isom", "iso2", "mp41"}};
  }
}

// the history with what was set declared from the start
inline Hist effective(const Hist& h) {
  Hist r = h;
  r.ops.clear();
  for (auto& o : h.ops) {
    if (o.set == 1)
      r.tr[o.t].mt = i64(o.ts);
    else if (o.set == 2)
      r.tr[o.t].obus.assign(o.size, u8(o.size));
    else
      r.ops.push_back(o);
  }
  return r;
}

// One muxer; its calls are made one at a time so that they can be interleaved and cut short.
class Muxer {
 public:
  Muxer(const Hist& h, std::ostream& os) : h_(h), os_(os), count_(h.tr.size(), 0) {}
  // 0: writer, 1: ftyp, then tracks, ops, append, and the two or three finishing calls
  std::size_t steps() const { return 2 + h_.tr.size() + h_.ops.size() + (h_.fast ? 4 : 3); }
  vector<u32> ids;
  lib::writer::Writer* writer() { return w_.get(); }
  lib::writer::FaststartWriter* fast() { return dynamic_cast<lib::writer::FaststartWriter*>(w_.get()); }
  void step(std::size_t i) {
    const std::size_t nt = h_.tr.size(), no = h_.ops.size();
    if (i == 0) {
      make();
    } else if (i == 1) {
      w_->writeFtypBox();
    } else if (i < 2 + nt) {
      track(h_.tr[i - 2]);
    } else if (i < 2 + nt + no) {
      op(h_.ops[i - 2 - nt]);
    } else {
      finish(i - 2 - nt - no);
    }
  }
  void all() {
    for (std::size_t i = 0; i < steps(); ++i) step(i);
  }
  // gives everything up, the writer before the tracks or after them
  void drop(bool writer_first) {
    if (writer_first) w_.reset();
    t_.clear();
    w_.reset();
  }
  lib::track::Track& at(int t) { return *t_.at(t); }
  void call(const Op& o) { op(o); }
  void append(const vector<int>& which) {
    vector<lib::track::Track*> v;
    for (int k : which) v.push_back(t_.at(k).get());
    w_->appendTrakAndUdtaBoxInfo(v);
  }
  void raw(int t, const Bytes& data) { t_.at(t)->addData(0, data, true); }
  void track_zero(Kind k) {  // a track with the id that no track may have
    TSpec t;
    t.k = k;
    zero_ = true;
    track(t);
  }

 private:
  void make() {
    const Ftyp f = ftyp(h_.ftyp);
    auto brand = [](const string& s) { return lib::Brand{u8(s[0]), u8(s[1]), u8(s[2]), u8(s[3])}; };
    if (h_.fast) {
      if (h_.ftyp == 0 && h_.pattern.empty()) {
        w_.reset(new lib::writer::FaststartWriter(os_, {.mvhd_timescale = h_.mvts, .duration = h_.dur}));
      } else {
        vector<lib::Brand> c;
        for (auto& s : f.compat) c.push_back(brand(s));
        w_.reset(new lib::writer::FaststartWriter(
            os_, {.mvhd_timescale = h_.mvts,
                  .duration = h_.dur,
                  .mdat_path_templete = h_.pattern.empty() ? "mdatXXXXXX" : h_.pattern,
                  .ftyp_params = {.major_brand = brand(f.major), .minor_version = f.minor, .compatible_brands = c}}));
      }
    } else {
      if (h_.ftyp == 0) {
        w_.reset(new lib::writer::SimpleWriter(os_, {.mvhd_timescale = h_.mvts, .duration = h_.dur}));
      } else {
        vector<lib::Brand> c;
        for (auto& s : f.compat) c.push_back(brand(s));
        w_.reset(new lib::writer::SimpleWriter(
            os_, {.mvhd_timescale = h_.mvts,
                  .duration = h_.dur,
                  .ftyp_params = {.major_brand = brand(f.major), .minor_version = f.minor, .compatible_brands = c}}));
      }
    }
  }
  void track(const TSpec& t) {
    const u32 id = zero_ ? 0 : t.id ? t.id : w_->getAndUpdateNextTrackID();
    ids.push_back(id);
    namespace tk = lib::track;
    auto* w = w_.get();
    switch (t.k) {
      case VP8:
      case VP9:
        if (t.k == VP9)  // the default codec
          t_.emplace_back(new tk::VPXTrack({.timescale = t.ts, .media_time = t.mt, .duration = t.dur, .track_id = id, .width = t.w, .height = t.h, .max_bitrate = t.maxbr, .avg_bitrate = t.avgbr, .writer = w}));
        else
          t_.emplace_back(new tk::VPXTrack({.codec = tk::VPXCodec::VP8, .timescale = t.ts, .media_time = t.mt, .duration = t.dur, .track_id = id, .width = t.w, .height = t.h, .max_bitrate = t.maxbr, .avg_bitrate = t.avgbr, .writer = w}));
        break;
      case AV1:
        t_.emplace_back(new tk::AV1Track({.timescale = t.ts, .media_time = t.mt, .duration = t.dur, .track_id = id, .width = t.w, .height = t.h, .seq_profile = static_cast<u8>(t.seq_profile), .seq_level_idx_0 = static_cast<u8>(t.seq_level), .seq_tier_0 = static_cast<u8>(t.seq_tier), .chroma_subsampling_x = static_cast<u8>(t.csx), .chroma_subsampling_y = static_cast<u8>(t.csy), .chroma_sample_position = static_cast<u8>(t.csp), .config_OBUs = t.obus, .writer = w}));
        break;
      case H264:
        t_.emplace_back(new tk::H264Track({.timescale = t.ts, .media_time = t.mt, .duration = t.dur, .track_id = id, .width = t.w, .height = t.h, .configuration_version = t.conf, .profile = t.profile, .profile_compatibility = t.compat, .level = t.level, .writer = w}));
        break;
      case AAC:
        t_.emplace_back(new tk::AACTrack({.timescale = t.ts, .duration = t.dur, .media_time = t.mt, .track_id = id, .buffer_size_db = t.buf, .max_bitrate = t.maxbr, .avg_bitrate = t.avgbr, .writer = w}));
        break;
      case OPUS:
        t_.emplace_back(new tk::OpusTrack({.pre_skip = t.pre_skip, .duration = t.dur, .media_time = t.mt, .roll_distance = t.roll, .track_id = id, .writer = w}));
        break;
      case MP3:
        t_.emplace_back(new tk::MP3Track({.timescale = t.ts, .duration = t.dur, .media_time = t.mt, .track_id = id, .buffer_size_db = t.buf, .max_bitrate = t.maxbr, .avg_bitrate = t.avgbr, .writer = w}));
        break;
      default: throw std::logic_error("kind");
    }
  }
  void op(const Op& o) {
    if (o.set == 1) return t_.at(o.t)->setMediaTime(i64(o.ts));
    if (o.set == 2) return dynamic_cast<lib::track::AV1Track&>(*t_.at(o.t)).setConfigOBUs(Bytes(o.size, u8(o.size)));
    if (o.term) return add(o);
    try {
      add(o);
    } catch (...) {
      --count_[o.t];  // the next sample has the refused one's content
      throw;
    }
  }
  void add(const Op& o) {
    auto* t = t_.at(o.t).get();
    if (o.term) {
      t->terminateCurrentChunk();
      return;
    }
    const u64 n = count_[o.t]++;
    if (o.data) {
      t->addData(o.ts, o.data, o.size, o.key);
      return;
    }
    const Bytes b = input(h_.tr[o.t], o.t, n, o);
    if (o.ptr) {
      // from a block that is overwritten right after, as a caller may do
      vector<u8> copy(b);
      t->addData(o.ts, copy.data(), copy.size(), o.key);
      std::fill(copy.begin(), copy.end(), 0xee);
    } else {
      t->addData(o.ts, b, o.key);
    }
  }
  void finish(std::size_t i) {
    if (i == 0) {
      vector<lib::track::Track*> v;
      if (h_.order.empty())
        for (auto& t : t_) v.push_back(t.get());
      else
        for (int k : h_.order) v.push_back(t_.at(k).get());
      w_->appendTrakAndUdtaBoxInfo(v);
    } else if (h_.fast) {
      auto* f = static_cast<lib::writer::FaststartWriter*>(w_.get());
      if (i == 1) f->writeMoovBox();
      else if (i == 2) f->writeMdatHeader();
      else f->copyMdatData();
    } else {
      auto* s = static_cast<lib::writer::SimpleWriter*>(w_.get());
      if (i == 1) s->writeFreeBoxAndMdatHeader();
      else s->writeMoovBox();
    }
  }
  const Hist& h_;
  std::ostream& os_;
  std::unique_ptr<lib::writer::Writer> w_;
  vector<std::unique_ptr<lib::track::Track>> t_;
  vector<u64> count_;
  bool zero_ = false;
};

// An output file in memory. Positions beyond the end may be sought, as in a file. Faults can be injected.
class MemBuf : public std::streambuf {
 public:
  enum Mode { NONE, ONCE, STICKY, PARTIAL };
  string s;
  u64 pos = 0, ops = 0, fail_at = ~0ULL, faults = 0;
  Mode mode = NONE;

 protected:
  bool hit() {
    const u64 k = ops++;
    const bool f = mode != NONE && (k == fail_at || (mode == STICKY && k > fail_at));
    faults += f;
    return f;
  }
  void put(const char* p, u64 n) {
    if (pos + n > s.size()) s.resize(pos + n, '\0');
    memcpy(&s[pos], p, n);
    pos += n;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (n <= 0) return 0;
    if (hit()) {
      if (mode == PARTIAL) {
        put(p, static_cast<u64>(n) / 2);
        return n / 2;
      }
      return 0;
    }
    put(p, static_cast<u64>(n));
    return n;
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (hit()) return traits_type::eof();
    const char ch = traits_type::to_char_type(c);
    put(&ch, 1);
    return c;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    if (hit()) return pos_type(off_type(-1));
    i64 b = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? static_cast<i64>(pos) : static_cast<i64>(s.size());
    b += off;
    if (b < 0) return pos_type(off_type(-1));
    pos = static_cast<u64>(b);
    return pos_type(off_type(b));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

inline string mux(const Hist& h) {
  MemBuf b;
  std::ostream os(&b);
  Muxer m(h, os);
  m.all();
  return b.s;
}

// ---------------------------------------------------------------- reference parser
struct Err : std::runtime_error {
  string key;
  Err(const string& k, const string& m) : std::runtime_error(m), key(k) {}
};

struct Node {
  string type;
  u64 off = 0, hdr = 8, size = 0;
  vector<Node> kids;
  u64 data() const { return off + hdr; }
  u64 dsize() const { return size - hdr; }
  u64 end() const { return off + size; }
  const Node* find(const string& t) const {
    for (auto& k : kids)
      if (k.type == t) return &k;
    return nullptr;
  }
  int count(const string& t) const {
    int n = 0;
    for (auto& k : kids) n += k.type == t;
    return n;
  }
  const Node& need(const string& t) const {
    const Node* n = find(t);
    if (!n) throw Err("structure:missing-" + t, "box " + t + " missing in " + type + " at " + to_string(off));
    return *n;
  }
};

struct StrSrc {
  const string& s;
  u64 size() const { return s.size(); }
  u64 be(u64 o, int n) const {
    if (o + n > s.size()) throw Err("structure:past-end", "read past the end of the file at " + to_string(o));
    return ut::be(s, o, n);
  }
  string str(u64 o, u64 n) const {
    if (o > s.size() || n > s.size() - o) throw Err("structure:past-end", "read past the end of the file at " + to_string(o));
    return s.substr(o, n);
  }
};
struct SparseSrc {
  const ut::SparseBuf& b;
  u64 size() const { return b.size; }
  u64 be(u64 o, int n) const {
    if (o + n > b.size) throw Err("structure:past-end", "read past the end of the file at " + to_string(o));
    return b.be(o, n);
  }
  string str(u64 o, u64 n) const {
    if (o > b.size || n > b.size - o) throw Err("structure:past-end", "read past the end of the file at " + to_string(o));
    return b.str(o, n);
  }
};

inline int own_bytes(const string& t) {  // -1: no children
  static const std::map<string, int> m = {
      {"moov", 0}, {"trak", 0}, {"edts", 0}, {"mdia", 0}, {"minf", 0}, {"dinf", 0}, {"stbl", 0}, {"udta", 0},
      {"ilst", 0}, {"\251too", 0}, {"dref", 8}, {"stsd", 8}, {"meta", 4}, {"avc1", 78}, {"vp08", 78},
      {"vp09", 78}, {"av01", 78}, {"mp4a", 28}, {"Opus", 28}};
  auto i = m.find(t);
  return i == m.end() ? -1 : i->second;
}

template <typename S>
vector<Node> parse(const S& s, u64 from, u64 to, int depth = 0) {
  vector<Node> r;
  u64 p = from;
  if (depth > 12) throw Err("structure:depth", "nesting too deep");
  while (p < to) {
    Node n;
    n.off = p;
    if (to - p < 8) throw Err("structure:gap", to_string(to - p) + " stray bytes at " + to_string(p));
    n.size = s.be(p, 4);
    n.type = s.str(p + 4, 4);
    if (n.size == 1) {
      if (to - p < 16) throw Err("structure:gap", "truncated 64-bit header at " + to_string(p));
      n.size = s.be(p + 8, 8);
      n.hdr = 16;
    }
    if (n.size < n.hdr) throw Err("structure:size", "box " + n.type + " at " + to_string(p) + " has size " + to_string(n.size));
    if (n.size > to - p)
      throw Err("structure:size", "box " + n.type + " at " + to_string(p) + " of size " + to_string(n.size) + " runs past " + to_string(to));
    const int own = own_bytes(n.type);
    if (own >= 0) {
      if (n.dsize() < u64(own)) throw Err("structure:own", "box " + n.type + " at " + to_string(p) + " is too small for its own fields");
      n.kids = parse(s, n.data() + own, n.end(), depth + 1);
    }
    p = n.end();
    r.push_back(n);
  }
  return r;
}

template <typename S>
struct File {
  S s;
  vector<Node> top;
  const Node* moov = nullptr;
  const Node* mdat = nullptr;
  vector<const Node*> traks;
  explicit File(const S& src) : s(src) {
    top = parse(s, 0, s.size());
    for (auto& n : top) {
      if (n.type == "moov") moov = &n;
      if (n.type == "mdat") mdat = &n;
    }
    if (!moov) throw Err("structure:missing-moov", "no movie header");
    if (!mdat) throw Err("structure:missing-mdat", "no media data");
    for (auto& k : moov->kids)
      if (k.type == "trak") traks.push_back(&k);
  }
  u64 be(const Node& n, u64 o, int k) const {
    if (o + k > n.dsize()) throw Err("structure:field", "field of " + n.type + " at " + to_string(n.off) + " outside the box");
    return s.be(n.data() + o, k);
  }
  string str(const Node& n, u64 o, u64 k) const {
    if (o + k > n.dsize()) throw Err("structure:field", "field of " + n.type + " at " + to_string(n.off) + " outside the box");
    return s.str(n.data() + o, k);
  }
  const Node& stbl(int i) const { return traks.at(i)->need("mdia").need("minf").need("stbl"); }

  struct Loc {
    u64 off, size;
  };
  vector<u64> chunk_offsets(int i) const {
    auto& st = stbl(i);
    const Node* a = st.find("stco");
    const Node* b = st.find("co64");
    if ((a != nullptr) == (b != nullptr)) throw Err("structure:offsets", "track has not exactly one chunk offset table");
    vector<u64> r;
    const Node& n = a ? *a : *b;
    const u64 c = be(n, 4, 4);
    if (n.dsize() != 8 + c * (a ? 4 : 8)) throw Err("structure:entries", n.type + " declares " + to_string(c) + " entries in " + to_string(n.dsize()) + " bytes");
    for (u64 k = 0; k < c; ++k) r.push_back(be(n, 8 + k * (a ? 4 : 8), a ? 4 : 8));
    return r;
  }
  // a parser that follows the tables
  vector<Loc> samples(int i) const {
    auto& st = stbl(i);
    const vector<u64> co = chunk_offsets(i);
    auto& stsc = st.need("stsc");
    auto& stsz = st.need("stsz");
    const u64 ne = be(stsc, 4, 4);
    if (stsc.dsize() != 8 + 12 * ne) throw Err("structure:entries", "stsc declares " + to_string(ne) + " entries in " + to_string(stsc.dsize()) + " bytes");
    const u64 fixed = be(stsz, 4, 4), ns = be(stsz, 8, 4);
    if (stsz.dsize() != 12 + (fixed ? 0 : 4 * ns)) throw Err("structure:entries", "stsz declares " + to_string(ns) + " entries in " + to_string(stsz.dsize()) + " bytes");
    vector<Loc> r;
    u64 e = 0;
    for (u64 c = 1; c <= co.size(); ++c) {
      while (e + 1 < ne && be(stsc, 8 + 12 * (e + 1), 4) <= c) ++e;
      if (ne == 0 || be(stsc, 8 + 12 * e, 4) > c) throw Err("samples:stsc", "no sample-to-chunk entry for chunk " + to_string(c));
      const u64 n = be(stsc, 8 + 12 * e + 4, 4);
      if (be(stsc, 8 + 12 * e + 8, 4) != 1) throw Err("samples:stsc", "sample description index is not 1");
      u64 o = co[c - 1];
      for (u64 k = 0; k < n; ++k) {
        if (r.size() >= ns) throw Err("samples:count", "chunks hold more samples than the size table");
        const u64 sz = fixed ? fixed : be(stsz, 12 + 4 * r.size(), 4);
        r.push_back({o, sz});
        o += sz;
      }
    }
    if (r.size() != ns) throw Err("samples:count", "chunks hold " + to_string(r.size()) + " samples, the size table " + to_string(ns));
    return r;
  }
};

inline vector<int> order(const Hist& h) {
  if (!h.order.empty()) return h.order;
  vector<int> r;
  for (std::size_t i = 0; i < h.tr.size(); ++i) r.push_back(int(i));
  return r;
}

// P01 / P02
template <typename S>
void check_samples(const File<S>& f, const Hist& h, const vector<Expect>& e) {
  const auto ord = order(h);
  if (f.traks.size() != ord.size()) throw Err("samples:tracks", to_string(f.traks.size()) + " tracks instead of " + to_string(ord.size()));
  for (std::size_t i = 0; i < ord.size(); ++i) {
    const auto& x = e[ord[i]];
    const auto l = f.samples(int(i));
    const string who = "track " + to_string(i) + " (" + kname(h.tr[ord[i]].k) + ") ";
    if (l.size() != x.size.size())
      throw Err("samples:count", who + "has " + to_string(l.size()) + " samples, " + to_string(x.size.size()) + " were added");
    for (std::size_t k = 0; k < l.size(); ++k) {
      if (l[k].size != x.size[k])
        throw Err("samples:size", who + "sample " + to_string(k) + " has size " + to_string(l[k].size) + " instead of " + to_string(x.size[k]));
      if (l[k].size && (l[k].off < f.mdat->data() || l[k].off + l[k].size > f.mdat->end()))
        throw Err("samples:outside", who + "sample " + to_string(k) + " at " + to_string(l[k].off) + " is not in the media data " + to_string(f.mdat->data()) + ".." + to_string(f.mdat->end()));
      if (x.ext[k]) continue;
      const string got = f.s.str(l[k].off, l[k].size);
      if (got != ut::str(x.data[k]))
        throw Err("samples:bytes", who + "sample " + to_string(k) + " at " + to_string(l[k].off) + " reads " + mc::hex(got, 40) + " instead of " + mc::hex(x.data[k], 40));
    }
  }
}

// P03
inline u64 ticks(float d, u32 ts) {
  // exact for the values the histories use
  long double v = static_cast<long double>(d) * ts;
  return static_cast<u64>(v + 0.5L);
}
template <typename S>
void check_timing(const File<S>& f, const Hist& h, const vector<Expect>& e) {
  const auto ord = order(h);
  auto times = [&](const Node& n, u64 extra, u64* dur) {  // extra: bytes between modification time and duration
    const int w = f.be(n, 0, 1) == 1 ? 8 : 4;
    *dur = f.be(n, 4 + 2 * w + extra, w);
  };
  auto eq = [&](const string& what, u64 got, u64 want) {
    if (got != want) throw Err("timing:" + what, what + " is " + to_string(got) + " instead of " + to_string(want));
  };
  u64 d;
  auto& mvhd = f.moov->need("mvhd");
  times(mvhd, 4, &d);
  eq("movie duration", d, ticks(h.dur, h.mvts));
  eq("movie timescale", f.be(mvhd, f.be(mvhd, 0, 1) == 1 ? 20 : 12, 4), h.mvts);
  if (f.traks.size() != ord.size()) throw Err("timing:tracks", to_string(f.traks.size()) + " tracks instead of " + to_string(ord.size()));
  for (std::size_t i = 0; i < ord.size(); ++i) {
    const auto& t = h.tr[ord[i]];
    const auto& x = e[ord[i]];
    auto& trak = *f.traks[i];
    times(trak.need("tkhd"), 8, &d);
    eq("track duration", d, ticks(t.dur, h.mvts));
    auto& mdhd = trak.need("mdia").need("mdhd");
    times(mdhd, 4, &d);
    eq("media duration", d, ticks(t.dur, t.timescale()));
    eq("media timescale", f.be(mdhd, f.be(mdhd, 0, 1) == 1 ? 20 : 12, 4), t.timescale());
    auto& elst = trak.need("edts").need("elst");
    eq("edit list entries", f.be(elst, 4, 4), 1);
    const int w = f.be(elst, 0, 1) == 1 ? 8 : 4;
    eq("edit duration", f.be(elst, 8, w), ticks(t.dur, h.mvts));
    i64 mt = static_cast<i64>(f.be(elst, 8 + w, w));
    if (w == 4) mt = static_cast<std::int32_t>(mt);
    eq("edit media time", static_cast<u64>(mt), static_cast<u64>(t.mt));
    eq("edit rate", f.be(elst, 8 + 2 * w, 4), 0x10000);
    auto& stts = f.stbl(int(i)).need("stts");
    const u64 ne = f.be(stts, 4, 4);
    if (stts.dsize() != 8 + 8 * ne) throw Err("structure:entries", "stts declares " + to_string(ne) + " entries in " + to_string(stts.dsize()) + " bytes");
    u64 k = 0;
    for (u64 j = 0; j < ne; ++j) {
      const u64 c = f.be(stts, 8 + 8 * j, 4), dd = f.be(stts, 12 + 8 * j, 4);
      if (c > x.ts.size() - k) throw Err("timing:durations", "more durations than samples (" + to_string(x.ts.size()) + ")");
      for (u64 q = 0; q < c; ++q, ++k) {
        const u64 want = (k + 1 < x.ts.size() ? x.ts[k + 1] : std::max(ticks(t.dur, t.timescale()), x.ts[k])) - x.ts[k];
        eq(k + 1 < x.ts.size() ? "sample duration" : "last sample duration", dd, want);
      }
    }
    eq("number of sample durations", k, x.ts.size());
  }
}

// P04
template <typename S>
void check_keys(const File<S>& f, const Hist& h, const vector<Expect>& e) {
  const auto ord = order(h);
  if (f.traks.size() != ord.size()) throw Err("keys:tracks", to_string(f.traks.size()) + " tracks instead of " + to_string(ord.size()));
  for (std::size_t i = 0; i < ord.size(); ++i) {
    const auto& t = h.tr[ord[i]];
    const auto& x = e[ord[i]];
    auto& st = f.stbl(int(i));
    const string who = string(kname(t.k)) + " track: ";
    if (is_video(t.k)) {
      if (st.count("stss") != 1) throw Err("keys:stss", who + to_string(st.count("stss")) + " sync sample tables");
      auto& stss = st.need("stss");
      const u64 n = f.be(stss, 4, 4);
      if (stss.dsize() != 8 + 4 * n) throw Err("structure:entries", "stss declares " + to_string(n) + " entries in " + to_string(stss.dsize()) + " bytes");
      vector<u64> got, want;
      for (u64 k = 0; k < n; ++k) got.push_back(f.be(stss, 8 + 4 * k, 4));
      for (std::size_t k = 0; k < x.key.size(); ++k)
        if (x.key[k]) want.push_back(k + 1);
      if (got != want) {
        string m = who + "sync samples are";
        for (std::size_t k = 0; k < got.size() && k < 20; ++k) m += " " + to_string(got[k]);
        m += ", key samples added:";
        for (std::size_t k = 0; k < want.size() && k < 20; ++k) m += " " + to_string(want[k]);
        throw Err("keys:list", m);
      }
    } else if (st.count("stss")) {
      throw Err("keys:audio", who + "has a sync sample table");
    }
    const bool roll = t.k == AAC || t.k == OPUS;
    if (st.count("sgpd") != (roll ? 1 : 0) || st.count("sbgp") != (roll ? 1 : 0))
      throw Err("keys:roll-presence", who + to_string(st.count("sgpd")) + " group descriptions and " + to_string(st.count("sbgp")) + " sample groups");
    if (!roll) continue;
    auto& sgpd = st.need("sgpd");
    auto& sbgp = st.need("sbgp");
    if (f.be(sgpd, 0, 1) != 1 || f.str(sgpd, 4, 4) != "roll" || f.be(sgpd, 12, 4) != 1)
      throw Err("keys:sgpd", who + "not one roll group description: " + mc::hex(f.str(sgpd, 0, sgpd.dsize())));
    u64 at = 16;
    u64 len = f.be(sgpd, 8, 4);
    if (len == 0) {
      len = f.be(sgpd, 16, 4);
      at = 20;
    }
    if (len != 2 || sgpd.dsize() != at + 2) throw Err("keys:sgpd", who + "roll description of length " + to_string(len));
    const auto dist = static_cast<std::int16_t>(f.be(sgpd, at, 2));
    if (dist != (t.k == AAC ? -1 : t.roll)) throw Err("keys:roll-distance", who + "roll distance " + to_string(dist));
    if (f.be(sbgp, 0, 1) != 0 || f.str(sbgp, 4, 4) != "roll") throw Err("keys:sbgp", who + "sample group is not of type roll");
    const u64 n = f.be(sbgp, 8, 4);
    if (sbgp.dsize() != 12 + 8 * n) throw Err("structure:entries", "sbgp declares " + to_string(n) + " entries in " + to_string(sbgp.dsize()) + " bytes");
    u64 tot = 0;
    for (u64 k = 0; k < n; ++k) {
      tot += f.be(sbgp, 12 + 8 * k, 4);
      if (f.be(sbgp, 16 + 8 * k, 4) != 1) throw Err("keys:sbgp", who + "samples outside the roll group");
    }
    if (tot != x.size.size()) throw Err("keys:sbgp-count", who + "roll group covers " + to_string(tot) + " of " + to_string(x.size.size()) + " samples");
  }
}

// P05: required boxes, once each in their parents, and nothing else; leaf sizes given by their counts
template <typename S>
void check_structure(const File<S>& f, const Hist& h, const vector<Expect>& e) {
  string tops;
  for (auto& n : f.top) tops += n.type + " ";
  u64 total = 0;
  for (auto& x : e)
    for (auto s : x.size) total += s;
  const string want = h.fast ? "ftyp moov mdat " : f.mdat->hdr == 16 ? "ftyp mdat moov " : "ftyp free mdat moov ";
  if (tops != want) throw Err("structure:top", "top-level boxes are " + tops + "instead of " + want);
  if (f.mdat->dsize() != total) throw Err("structure:mdat", "media data of " + to_string(f.mdat->dsize()) + " bytes for " + to_string(total) + " bytes of samples");
  if (!h.fast && f.mdat->hdr == 8 && f.top[1].size != 8) throw Err("structure:free", "filler of size " + to_string(f.top[1].size));
  {
    const Ftyp t = ftyp(h.ftyp);
    auto& n = f.top[0];
    string w = t.major + ut::str(ut::Enc().u32(t.minor).v);
    for (auto& c : t.compat) w += c;
    if (f.str(n, 0, n.dsize()) != w) throw Err("structure:ftyp", "file type " + mc::hex(f.str(n, 0, n.dsize())) + " instead of " + mc::hex(w));
  }
  auto leaf = [&](const Node& n, u64 want_size) {
    if (n.dsize() != want_size) throw Err("structure:leaf", "box " + n.type + " holds " + to_string(n.dsize()) + " bytes, its fields need " + to_string(want_size));
  };
  auto once = [&](const Node& n, const vector<string>& l) {
    for (auto& k : n.kids) {
      if (std::find(l.begin(), l.end(), k.type) == l.end()) throw Err("structure:stray", "box " + k.type + " in " + n.type);
    }
    for (auto& t : l)
      if (n.count(t) != 1) throw Err("structure:missing-" + t, "box " + t + " is " + to_string(n.count(t)) + " times in " + n.type);
  };
  auto ver = [&](const Node& n) {
    const u64 v = f.be(n, 0, 1);
    if (v > 1) throw Err("structure:version", n.type + " has version " + to_string(v));
    return v;
  };
  const auto ord = order(h);
  if (f.moov->count("mvhd") != 1 || f.moov->count("udta") > 1) throw Err("structure:moov", "movie header box without one mvhd");
  for (auto& k : f.moov->kids)
    if (k.type != "mvhd" && k.type != "udta" && k.type != "trak") throw Err("structure:stray", "box " + k.type + " in moov");
  if (f.moov->kids[0].type != "mvhd") throw Err("structure:moov", "mvhd is not first");
  if (f.traks.size() != ord.size()) throw Err("structure:tracks", to_string(f.traks.size()) + " tracks instead of " + to_string(ord.size()));
  leaf(f.moov->need("mvhd"), ver(f.moov->need("mvhd")) ? 112 : 100);
  if (auto* u = f.moov->find("udta")) {
    auto& meta = u->need("meta");
    once(*u, {"meta"});
    once(meta, {"hdlr", "ilst"});
    if (f.str(meta.need("hdlr"), 8, 4) != "mdir") throw Err("structure:meta", "metadata handler");
    leaf(meta.need("hdlr"), 25);
    auto& too = meta.need("ilst").need("\251too");
    once(too, {"data"});
    if (f.str(too.need("data"), 0, too.need("data").dsize()) != string("\0\0\0\1\0\0\0\0shiguredo::mp4", 22))
      throw Err("structure:meta", "tool name " + mc::hex(f.str(too.need("data"), 0, too.need("data").dsize())));
  }
  for (std::size_t i = 0; i < ord.size(); ++i) {
    auto& tr = *f.traks[i];
    const auto& t = h.tr[ord[i]];
    once(tr, {"tkhd", "edts", "mdia"});
    leaf(tr.need("tkhd"), ver(tr.need("tkhd")) ? 96 : 84);
    once(tr.need("edts"), {"elst"});
    auto& elst = tr.need("edts").need("elst");
    leaf(elst, 8 + f.be(elst, 4, 4) * (ver(elst) ? 20 : 12));
    auto& mdia = tr.need("mdia");
    once(mdia, {"mdhd", "hdlr", "minf"});
    leaf(mdia.need("mdhd"), ver(mdia.need("mdhd")) ? 36 : 24);
    auto& hdlr = mdia.need("hdlr");
    const string name = f.str(hdlr, 24, hdlr.dsize() - 24);
    if (name.find('\0') != name.size() - 1) throw Err("structure:hdlr", "handler name does not end with the box: " + mc::hex(name));
    auto& minf = mdia.need("minf");
    once(minf, {is_video(t.k) ? "vmhd" : "smhd", "dinf", "stbl"});
    leaf(minf.need(is_video(t.k) ? "vmhd" : "smhd"), is_video(t.k) ? 12 : 8);
    once(minf.need("dinf"), {"dref"});
    auto& dref = minf.need("dinf").need("dref");
    if (f.be(dref, 4, 4) != dref.kids.size()) throw Err("structure:entries", "dref declares " + to_string(f.be(dref, 4, 4)) + " entries");
    once(dref, {"url "});
    if (f.be(dref.need("url "), 0, 4) != 1) throw Err("structure:url", "data reference is not 'in this file'");
    leaf(dref.need("url "), 4);
    auto& st = minf.need("stbl");
    vector<string> l = {"stsd", "stts", "stsc", "stsz", st.find("co64") ? "co64" : "stco"};
    if (is_video(t.k)) l.push_back("stss");
    if (t.k == AAC || t.k == OPUS) {
      l.push_back("sgpd");
      l.push_back("sbgp");
    }
    once(st, l);
    auto& stsd = st.need("stsd");
    if (f.be(stsd, 4, 4) != stsd.kids.size() || stsd.kids.size() != 1) throw Err("structure:entries", "stsd declares " + to_string(f.be(stsd, 4, 4)) + " entries and holds " + to_string(stsd.kids.size()));
    for (auto& [n, per] : vector<std::pair<string, u64>>{{"stts", 8}, {"stsc", 12}, {"stss", 4}, {"stco", 4}, {"co64", 8}})
      if (auto* b = st.find(n)) leaf(*b, 8 + per * f.be(*b, 4, 4));
    if (f.be(st.need("stsz"), 4, 4) == 0) leaf(st.need("stsz"), 12 + 4 * f.be(st.need("stsz"), 8, 4));
    f.samples(int(i));  // the counts of all tables agree
    u64 durs = 0;
    for (u64 k = 0; k < f.be(st.need("stts"), 4, 4); ++k) durs += f.be(st.need("stts"), 8 + 8 * k, 4);
    if (durs != f.be(st.need("stsz"), 8, 4)) throw Err("structure:entries", "stts covers " + to_string(durs) + " of " + to_string(f.be(st.need("stsz"), 8, 4)) + " samples");
    // boxes inside the sample description
    const Node& se = stsd.kids[0];
    for (auto& k : se.kids) {
      if (k.type == "btrt") leaf(k, 12);
      else if (k.type == "dOps") leaf(k, 11);
      else if (k.type == "fiel") leaf(k, 2);
      else if (k.type == "pasp") leaf(k, 8);
      else if (k.type == "vpcC") leaf(k, 12 + f.be(k, 10, 2));
      else if (k.type == "av1C") leaf(k, 4 + t.obus.size());
      else if (k.type == "esds") {
        // one descriptor that fills the box, whose sub-descriptors fill it
        std::function<void(u64, u64)> walk = [&](u64 a, u64 b) {
          while (a < b) {
            const u64 tag = f.be(k, a, 1);
            ++a;
            u64 len = 0, c;
            do {
              c = f.be(k, a, 1);
              ++a;
              len = (len << 7) | (c & 0x7f);
            } while (c & 0x80);
            if (len > b - a) throw Err("structure:descriptor", "descriptor " + to_string(tag) + " of length " + to_string(len) + " runs past its parent");
            if (tag == 3) walk(a + 3, a + len);
            else if (tag == 4) walk(a + 13, a + len);
            a += len;
          }
        };
        walk(4, k.dsize());
      } else if (k.type == "avcC") {
        u64 p = 5;
        u64 ns = f.be(k, p++, 1) & 31;
        for (int pass = 0; pass < 2; ++pass) {
          for (u64 q = 0; q < ns; ++q) p += 2 + f.be(k, p, 2);
          if (pass == 0) ns = f.be(k, p++, 1);
        }
        if (p != k.dsize()) throw Err("structure:avcC", "configuration of " + to_string(p) + " bytes in a box of " + to_string(k.dsize()));
      } else {
        throw Err("structure:stray", "box " + k.type + " in " + se.type);
      }
    }
  }
}

// P06
template <typename S>
void check_headers(const File<S>& f, const Hist& h, const vector<u32>& ids, u32 max_id, u64 clock) {
  const u64 born = clock + 2082844800ULL;
  const auto ord = order(h);
  auto eq = [&](const string& what, u64 got, u64 want) {
    if (got != want) throw Err("headers:" + what, what + " is " + to_string(got) + " instead of " + to_string(want));
  };
  auto bytes = [&](const string& what, const string& got, const string& want) {
    if (got != want) throw Err("headers:" + what, what + " is " + mc::hex(got) + " instead of " + mc::hex(want));
  };
  auto born_ok = [&](const Node& n) {
    const int w = f.be(n, 0, 1) == 1 ? 8 : 4;
    eq(n.type + " creation time", f.be(n, 4, w), born);
    eq(n.type + " modification time", f.be(n, 4 + w, w), born);
    return w;
  };
  static const string unity = ut::str(ut::Enc().u32(0x10000).u32(0).u32(0).u32(0).u32(0x10000).u32(0).u32(0).u32(0).u32(0x40000000).v);
  auto& mvhd = f.moov->need("mvhd");
  int w = born_ok(mvhd);
  u64 p = 4 + 3 * w + 4;
  eq("mvhd timescale", f.be(mvhd, 4 + 2 * w, 4), h.mvts);
  eq("mvhd rate", f.be(mvhd, p, 4), 0x10000);
  eq("mvhd volume", f.be(mvhd, p + 4, 2), 0x100);
  bytes("mvhd matrix", f.str(mvhd, p + 16, 36), unity);
  const u64 next = f.be(mvhd, p + 76, 4);  // all ones if no identifier is left
  if (max_id == 0xffffffff ? next != max_id : next <= max_id) throw Err("headers:next-id", "next track id is " + to_string(next) + ", " + to_string(max_id) + " is in use");
  eq("number of tracks", f.traks.size(), ord.size());
  for (std::size_t i = 0; i < ord.size(); ++i) {
    const auto& t = h.tr[ord[i]];
    auto& tr = *f.traks[i];
    auto& tkhd = tr.need("tkhd");
    w = born_ok(tkhd);
    eq("tkhd flags", f.be(tkhd, 1, 3), 3);
    eq("track id", f.be(tkhd, 4 + 2 * w, 4), ids.at(ord[i]));
    p = 4 + 2 * w + 8 + w + 8;
    eq("tkhd layer and group", f.be(tkhd, p, 4), 0);
    eq("tkhd volume", f.be(tkhd, p + 4, 2), is_video(t.k) ? 0 : 0x100);
    bytes("tkhd matrix", f.str(tkhd, p + 8, 36), unity);
    eq("tkhd width", f.be(tkhd, p + 44, 4), is_video(t.k) ? u64(t.w) << 16 : 0);
    eq("tkhd height", f.be(tkhd, p + 48, 4), is_video(t.k) ? u64(t.h) << 16 : 0);
    auto& mdhd = tr.need("mdia").need("mdhd");
    w = born_ok(mdhd);
    eq("mdhd timescale", f.be(mdhd, 4 + 2 * w, 4), t.timescale());
    eq("mdhd language", f.be(mdhd, 4 + 3 * w + 4, 2), 0x55c4);
    auto& hdlr = tr.need("mdia").need("hdlr");
    bytes("handler", f.str(hdlr, 8, 4), is_video(t.k) ? "vide" : "soun");
    bytes("handler name", f.str(hdlr, 24, hdlr.dsize() - 24), string("shiguredo::mp4\0", 15));
    auto& minf = tr.need("mdia").need("minf");
    if (is_video(t.k))
      bytes("vmhd", f.str(minf.need("vmhd"), 0, 12), string("\0\0\0\1\0\0\0\0\0\0\0\0", 12));
    else
      bytes("smhd", f.str(minf.need("smhd"), 0, 8), string(8, '\0'));
    const Node& se = minf.need("stbl").need("stsd").kids.at(0);
    static const char* types[] = {"vp08", "vp09", "av01", "avc1", "mp4a", "Opus", "mp4a"};
    bytes("sample entry type", se.type, types[t.k]);
    bytes("sample entry reserved and data reference", f.str(se, 0, 8), string("\0\0\0\0\0\0\0\1", 8));
    if (is_video(t.k)) {
      eq("sample entry width", f.be(se, 24, 2), t.w & 0xffff);
      eq("sample entry height", f.be(se, 26, 2), t.h & 0xffff);
      eq("horizontal resolution", f.be(se, 28, 4), 0x480000);
      eq("vertical resolution", f.be(se, 32, 4), 0x480000);
      eq("frame count", f.be(se, 40, 2), 1);
      eq("depth", f.be(se, 74, 2), 0x18);
      eq("pre_defined", f.be(se, 76, 2), 0xffff);
    } else {
      eq("channels", f.be(se, 16, 2), 2);
      eq("sample size", f.be(se, 18, 2), 16);
      const u64 rate = t.timescale();
      eq("sample rate", f.be(se, 24, 4), rate <= 0xffff ? rate << 16 : 0);
    }
    auto kid = [&](const string& ty, const string& want) {
      auto& k = se.need(ty);
      bytes(ty, f.str(k, 0, k.dsize()), want);
    };
    auto E = [] { return ut::Enc(); };
    const string btrt = ut::str(E().u32(0).u32(t.maxbr).u32(t.avgbr).v);
    auto desc = [&](int tag, const Bytes& b) {
      return E().u8(tag).u8(0x80 | (b.size() >> 21)).u8(0x80 | ((b.size() >> 14) & 0x7f)).u8(0x80 | ((b.size() >> 7) & 0x7f)).u8(b.size() & 0x7f).bytes(b).v;
    };
    switch (t.k) {
      case VP8:
      case VP9:
        kid("btrt", btrt);
        if (f.be(se.need("vpcC"), 0, 4) != 0x01000000) throw Err("headers:vpcC", "vpcC version");
        eq("vpcC level", f.be(se.need("vpcC"), 5, 1), 21);
        break;
      case AV1: {
        auto b = E().u8(0x81).bits(t.seq_profile, 3).bits(t.seq_level, 5).bits(t.seq_tier, 1).bits(0, 2).bits(0, 1).bits(t.csx, 1).bits(t.csy, 1).bits(t.csp, 2).u8(0).bytes(t.obus).v;
        kid("av1C", ut::str(b));
        break;
      }
      case H264:
        if (t.ps && std::any_of(h.ops.begin(), h.ops.end(), [&](const Op& o) { return o.t == ord[i] && !o.term && o.key; }))
          kid("avcC", ut::str(E().u8(t.conf).u8(SPS[1]).u8(SPS[2]).u8(SPS[3]).u8(0xff).u8(0xe1).u16(SPS.size()).bytes(SPS).u8(1).u16(PPS.size()).bytes(PPS).v));
        else
          kid("avcC", ut::str(E().u8(t.conf).u8(t.profile).u8(t.compat).u8(t.level).u8(0xff).u8(0xe0).u8(0).v));
        break;
      case AAC: {
        kid("btrt", btrt);
        static const vector<u32> fr = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
        auto it = std::find(fr.begin(), fr.end(), t.ts);
        const unsigned fi = it == fr.end() ? 3 : unsigned(it - fr.begin());
        auto dsi = E().bits(2, 5).bits(fi, 4).bits(2, 4).bits(0, 3).v;
        auto dcd = E().u8(0x40).u8(0x15).u24(t.buf).u32(t.maxbr).u32(t.avgbr).bytes(desc(5, dsi)).v;
        auto esd = E().u16(ids.at(ord[i]) & 0xffff).u8(0).bytes(desc(4, dcd)).bytes(desc(6, {2})).v;
        kid("esds", ut::str(E().u32(0).bytes(desc(3, esd)).v));
        break;
      }
      case MP3: {
        auto dcd = E().u8(0x6b).u8(0x15).u24(t.buf).u32(t.maxbr).u32(t.avgbr).v;
        auto esd = E().u16(0).u8(0).bytes(desc(4, dcd)).bytes(desc(6, {2})).v;
        kid("esds", ut::str(E().u32(0).bytes(desc(3, esd)).v));
        break;
      }
      case OPUS: kid("dOps", ut::str(E().u8(0).u8(2).u16(t.pre_skip).u32(48000).u16(0).u8(0).v)); break;
      default: break;
    }
  }
}

}  // namespace mx

#ifdef MX_CLOCK
// the clock of the process while cases run
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    ts->tv_sec = mx::g_clock;
    ts->tv_nsec = 500000000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" time_t time(time_t* t) noexcept {
  if (t) *t = mx::g_clock;
  return mx::g_clock;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  tv->tv_sec = mx::g_clock;
  tv->tv_usec = 500000;
  return 0;
}
#endif
