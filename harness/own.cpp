// P29: everything taken is given back. Every history is run twice in a row under an allocator that counts bytes and
// notices blocks freed twice; the second run may not leave more memory or open files behind than it found.
#define MX_CLOCK
#include "files.hpp"
#include "imf.hpp"

#include <dirent.h>
#include <sanitizer/allocator_interface.h>

#include <filesystem>

#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

namespace fs = std::filesystem;

static string g_dir;

static int open_files() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static u64 entries(const string& dir) {
  u64 n = 0;
  for (auto& e : fs::directory_iterator(dir)) (void)e, ++n;
  return n;
}

struct Seen {
  u64 at = 0;           // how far it came
  bool refused = false;
  u64 unclosed = 0;     // intermediate files in memory that were not closed
  bool constructed = true;
};
// runs f until a run leaves nothing behind, at most four times: only what every run leaves is a loss
static void owned(mc::MC& m, const std::function<Seen()>& f, const std::function<string()>& where) {
  Seen s;
  i64 lost = 0, files = 0;
  for (int run = 0; run < 4; ++run) {
    const i64 a = static_cast<i64>(__sanitizer_get_current_allocated_bytes());
    const int o = open_files();
    s = f();
    files = open_files() - o;
    lost = static_cast<i64>(__sanitizer_get_current_allocated_bytes()) - a;
    m.trans(s.at);
    if (run && lost <= 0) break;
    if (files > 0 && run > 0) break;
  }
  m.trace();
  m.eval(s.refused);
  m.state(mc::mix(mc::hash(where()), mc::mix(s.at, s.refused)));
  m.count(s.refused ? "ended by an error" : "ran through");
  m.sample([&] { return where() + (s.refused ? ", refused at " : ", done after ") + to_string(s.at); });
  if (lost > 0) m.fail("memory", to_string(lost) + " bytes are never given back", where());
  if (files > 0) m.fail("descriptor", to_string(files) + " open files are left", where());
  if (s.unclosed) m.fail("descriptor", "the intermediate file is left open", where());
  if (entries(g_dir) != 0) {
    if (!s.constructed) m.fail("intermediate-left", "no writer was made, but its intermediate file is there", where());
    for (auto& e : fs::directory_iterator(g_dir)) fs::remove_all(e.path());
  }
}

// ---------------------------------------------------------------- muxing
static Op add(int t, u64 size, bool key = false) {
  Op o;
  o.t = t;
  o.size = size;
  o.key = key;
  return o;
}
static Op term(int t) {
  Op o;
  o.t = t;
  o.term = true;
  return o;
}
static Hist hist(bool fast, const vector<int>& kinds, const vector<Op>& ops) {
  Hist h;
  h.fast = fast;
  h.pattern = fast ? g_dir + "/mXXXXXX" : "";
  for (int k : kinds) {
    TSpec t;
    t.k = Kind(k);
    t.ps = true;
    h.tr.push_back(t);
  }
  vector<bool> open(h.tr.size(), false);
  vector<u64> n(h.tr.size(), 0);
  for (auto o : ops) {
    if (!o.term)
      for (std::size_t t = 0; t < open.size(); ++t)
        if (open[t] && static_cast<int>(t) != o.t) {
          h.ops.push_back(term(static_cast<int>(t)));
          open[t] = false;
        }
    open[static_cast<std::size_t>(o.t)] = !o.term;
    if (!o.term) o.ts = 10 * n[static_cast<std::size_t>(o.t)]++;
    h.ops.push_back(o);
  }
  return h;
}
static vector<Hist> hists(bool th) {
  vector<Hist> r;
  for (int fast = 0; fast < 2; ++fast) {
    r.push_back(hist(fast, {}, {}));
    for (int k = 0; k < NKIND; ++k) {
      r.push_back(hist(fast, {k}, {add(0, 3, true), add(0, 2), term(0), add(0, 300, true)}));
      for (int k2 = 0; k2 < (th ? NKIND : 0); ++k2) r.push_back(hist(fast, {k, k2}, {add(0, 3, true), add(1, 2), add(0, 5), add(1, 9, true)}));
    }
    r.push_back(hist(fast, {H264, AAC, VP9, OPUS}, {add(0, 3, true), add(1, 2), add(2, 4, true), add(3, 1), add(0, 2), add(1, 2)}));
    r.push_back(hist(fast, {AV1, MP3}, {add(0, 70000, true), add(1, 2), add(0, 5)}));
  }
  return r;
}
static u64 unclosed() {
  u64 n = 0;
  for (auto& f : imf::files) n += f->fp && !f->closed;
  return n;
}
static void tidy(Muxer* mu) {
  if (!mu->fast()) return;
  std::error_code ec;
  fs::remove(mu->fast()->getIntermediateFilePath(), ec);
}

static void muxing(mc::MC& m) {
  const auto hs = hists(m.thorough);
  m.phase("muxers given up after every call");
  for (auto& h : hs) {
    std::size_t n;
    {
      MemBuf b;
      std::ostream os(&b);
      n = Muxer(h, os).steps();
    }
    for (std::size_t cut = 0; cut <= n; ++cut)
      for (int writer_first = 0; writer_first < 2; ++writer_first)
        for (int mem = 0; mem < (h.fast ? 2 : 1); ++mem) {
          if (!m.next()) continue;
          owned(
              m,
              [&] {
                Seen s;
                MemBuf b;
                std::ostream os(&b);
                if (mem) imf::begin();
                {
                  Muxer mu(h, os);
                  for (; s.at < cut; ++s.at) mu.step(s.at);
                  tidy(&mu);
                  mu.drop(writer_first);
                }
                s.unclosed = unclosed();
                if (mem) imf::end();
                return s;
              },
              [&] { return h.str() + " given up after " + to_string(cut) + " of " + to_string(n) + " calls, " + (writer_first ? "writer" : "tracks") + " first" + (mem ? ", file in memory" : ""); });
        }
  }
  m.phase("failing outputs");
  for (auto& h : hs) {
    MemBuf ref;
    u64 fops = 0;
    {
      std::ostream os(&ref);
      imf::begin();
      Muxer mu(h, os);
      mu.all();
      fops = imf::ops;
      imf::end();
    }
    auto run = [&](MemBuf::Mode bm, u64 bk, bool exc, imf::Mode fm, u64 fk, int broken) {
      Seen s;
      MemBuf b;
      b.mode = bm;
      b.fail_at = bk;
      std::ostream os(&b);
      if (exc) os.exceptions(std::ios_base::badbit);
      imf::begin(fm, fk);
      imf::fail_create = broken == 1;
      imf::fail_open = broken == 2;
      {
        Muxer mu(h, os);
        try {
          for (; s.at < mu.steps(); ++s.at) mu.step(s.at);
        } catch (const std::exception&) {
          s.refused = true;
        }
        s.constructed = mu.writer() != nullptr;
        tidy(&mu);
        mu.drop(false);
      }
      s.unclosed = unclosed();
      imf::end();
      return s;
    };
    for (u64 k = 0; k < ref.ops; ++k)
      for (auto mode : {MemBuf::ONCE, MemBuf::STICKY, MemBuf::PARTIAL})
        for (int exc = 0; exc < 2; ++exc) {
          if (!m.next()) continue;
          owned(m, [&] { return run(mode, k, exc, imf::NONE, ~0ULL, 0); }, [&] { return h.str() + " output operation " + to_string(k) + " fails, mode " + to_string(mode) + (exc ? ", stream throws" : ""); });
        }
    if (!h.fast) continue;
    for (int broken = 1; broken < 3; ++broken) {
      if (!m.next()) continue;
      owned(m, [&] { return run(MemBuf::NONE, ~0ULL, false, imf::NONE, ~0ULL, broken); }, [&] { return h.str() + (broken == 1 ? " the intermediate file cannot be created" : " the intermediate file cannot be opened"); });
    }
    for (u64 k = 0; k < fops; ++k)
      for (auto mode : {imf::ONCE, imf::STICKY, imf::SHORT, imf::END}) {
        if (!m.next()) continue;
        owned(m, [&] { return run(MemBuf::NONE, ~0ULL, false, mode, k, 0); }, [&] { return h.str() + " intermediate file operation " + to_string(k) + " fails, mode " + to_string(mode); });
      }
  }
  m.phase("refused arguments");
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) {
      vector<std::pair<string, Hist>> bad;
      auto base = [&] { return hist(fast, {k}, {add(0, 3, true), add(0, 2)}); };
      for (float d : {-1.f, -0.001f, 1e30f, INFINITY, NAN, 4e12f}) {
        Hist h = base();
        h.dur = d;
        bad.push_back({"duration " + to_string(d), h});
        h = base();
        h.tr[0].dur = d;
        bad.push_back({"track duration " + to_string(d), h});
      }
      for (u32 ts : {0u, 1u, 12345u, 0xffffffffu}) {
        Hist h = base();
        h.mvts = ts;
        bad.push_back({"movie timescale " + to_string(ts), h});
        h = base();
        h.tr[0].ts = ts;
        bad.push_back({"timescale " + to_string(ts), h});
      }
      for (const char* p : {"", "x", "XXXXX", "/no/such/dirXXXXXX"}) {
        Hist h = base();
        if (!fast) continue;
        h.pattern = p[0] ? string(p) : string(5000, 'y') + "XXXXXX";
        bad.push_back({string("name ") + p, h});
      }
      for (auto mt : {static_cast<i64>(0x7fffffffffffffffLL), static_cast<i64>(1LL << 40), static_cast<i64>(-1)}) {
        Hist h = base();
        h.tr[0].mt = mt;
        bad.push_back({"media time " + to_string(mt), h});
      }
      for (auto& [what, h] : bad) {
        if (!m.next()) continue;
        owned(
            m,
            [&, &h = h] {
              Seen s;
              MemBuf b;
              std::ostream os(&b);
              Muxer mu(h, os);
              try {
                for (; s.at < mu.steps(); ++s.at) mu.step(s.at);
              } catch (const std::exception&) {
                s.refused = true;
              }
              s.constructed = mu.writer() != nullptr;
              tidy(&mu);
              return s;
            },
            [&, &what = what, &h = h] { return h.str() + " with " + what; });
      }
      // a track without an id, and units that are not H.264
      if (!m.next()) continue;
      owned(
          m,
          [&] {
            Seen s;
            MemBuf b;
            std::ostream os(&b);
            Hist h = base();
            Muxer mu(h, os);
            mu.step(0);
            try {
              mu.track_zero(Kind(k));
            } catch (const std::exception&) {
              s.refused = true;
            }
            tidy(&mu);
            return s;
          },
          [&] { return string(kname(Kind(k))) + " track with the id 0"; });
    }
  m.phase("refused units");
  {
    const vector<Bytes> units = {{}, {0, 0, 0, 1}, {0, 0, 1}, {1, 2, 3, 4, 5}, {0, 0, 0, 1, 0x65, 1, 2}, {0, 0, 1, 0x67, 1, 2, 3, 4, 5}, {0, 0, 1, 0x68, 9}, {0, 0, 0, 1, 0x69, 0xf0}, {0, 0, 1, 0x06, 5}, {0, 0, 1, 0x60}};
    for (int fast = 0; fast < 2; ++fast)
      for (std::size_t n = 1; n <= (m.thorough ? 4 : 3); ++n)
        mc::product(vector<std::size_t>(n, units.size()), [&](auto& d) {
          if (!m.next()) return;
          Bytes all;
          for (auto i : d) all.insert(all.end(), units[i].begin(), units[i].end());
          for (u64 fail : {~0ULL, 2ULL, 3ULL})
            owned(
                m,
                [&] {
                  Seen s;
                  MemBuf b;
                  std::ostream os(&b);
                  Hist h = hist(fast, {H264}, {});
                  Muxer mu(h, os);
                  mu.step(0);
                  mu.step(1);
                  mu.step(2);
                  b.mode = MemBuf::STICKY;
                  b.fail_at = fail == ~0ULL ? fail : b.ops + fail - 2;
                  try {
                    mu.raw(0, all);
                    ++s.at;
                    mu.step(3);
                    ++s.at;
                  } catch (const std::exception&) {
                    s.refused = true;
                  }
                  tidy(&mu);
                  return s;
                },
                [&] { return string(fast ? "faststart" : "simple") + " H.264 data " + mc::hex(all) + (fail == ~0ULL ? "" : ", output failing"); });
        });
  }
}

// ---------------------------------------------------------------- reading
static Seen read(const string& s) {
  Seen r;
  std::ostringstream cap;
  auto* old = std::cout.rdbuf(cap.rdbuf());
  try {
    std::istringstream is(s);
    lib::reader::SimpleReader rd(is);
    rd.read();
  } catch (const std::exception&) {
    r.refused = true;
  }
  std::cout.rdbuf(old);
  std::cout.clear();
  r.at = 1;
  return r;
}
static string poke(string s, u64 at, u64 v, int n) {
  for (int i = 0; i < n; ++i)
    if (at + static_cast<u64>(i) < s.size()) s[at + static_cast<u64>(i)] = static_cast<char>(v >> (8 * (n - 1 - i)));
  return s;
}
static void reading(mc::MC& m) {
  const bool th = m.thorough;
  auto go = [&](const string& s, const std::function<string()>& note) {
    if (!m.next()) return;
    owned(m, [&] { return read(s); }, [&] { return note() + " file " + mc::hex(s, 200); });
  };
  m.phase("files of headers");
  {
    vector<string> tok;
    for (const char* t : {"moov", "zzzz", "stts"})
      for (u64 z : {0ULL, 7ULL, 8ULL, 9ULL, 16ULL, 24ULL, 0xffffffffULL}) tok.push_back(ut::str(ut::Enc().u32(z).str(t).v));
    for (u64 z : {0ULL, 15ULL, 16ULL, 24ULL, 0xfffffffffffffff0ULL}) tok.push_back(ut::str(ut::Enc().u32(1).str("moov").u64(z).v));
    for (std::size_t n : {1, 4}) tok.push_back(string(n, '\0'));
    for (std::size_t n = 0; n <= (th ? 3 : 2); ++n)
      mc::product(vector<std::size_t>(n, tok.size()), [&](auto& d) {
        string s;
        for (auto i : d) s += tok[i];
        go(s, [] { return string("headers"); });
      });
  }
  m.phase("trees, whole, cut and with changed sizes");
  auto change = [&](const vector<Item>& l) {
    const Gen g = generate(l);
    auto note = [&] { return name(l); };
    go(g.bytes, note);
    for (std::size_t i = 0; i < l.size(); ++i)
      for (u64 z : vector<u64>{0, 1, 7, 8, g.lines[i].size - 1, g.lines[i].size + 1, 0xffffffff}) go(poke(g.bytes, g.lines[i].off, z, 4), note);
    for (std::size_t n = 0; n < g.bytes.size(); n += l.size() < 2 || th ? 1 : 3) go(g.bytes.substr(0, n), note);
  };
  const int all = static_cast<int>(node_kinds().size());
  trees(1, all, 3, change);
  trees(2, th ? all : 12, th ? 3 : 2, change);
  trees(3, th ? 6 : 3, th ? 2 : 1, change);
  m.phase("counts and lengths that announce more than there is");
  for (const char* t : {"stts", "ctts", "stsc", "stsz", "stco", "co64", "stss", "sdtp", "sbgp", "sgpd", "elst", "trun", "tfra", "sidx", "pssh", "emsg", "esds", "avcC", "vpcC", "iods", "hdlr", "colr", "dOps", "av1C", "data", "mfro", "tfhd"})
    for (u64 count : {0x1ULL, 0x10ULL, 0xffffULL, 0x7fffffffULL, 0xffffffffULL})
      for (int at = 0; at <= 20; at += 4)
        for (u64 fill : {0x00ULL, 0x01ULL, 0x03ULL, 0xffULL}) {
          string d(24, static_cast<char>(fill));
          if (at > 0) d = poke(d, 0, fill == 1 ? 0x01000000 : 0, 4);
          d = poke(d, static_cast<u64>(at), count, 4);
          go(ut::str(ut::box("moov", ut::box(t, ut::bytes(d)))), [&] { return string("count in ") + t; });
        }
  m.phase("descriptors");
  {
    // elementary stream descriptors of up to three tags, whole and cut
    const vector<Bytes> tok = {{0x03, 3, 0, 1, 0}, {0x04, 13, 0x40, 0x15, 0, 3, 0, 0, 1, 0, 0, 0, 0, 1, 0}, {0x05, 2, 0x12, 0x10}, {0x06, 1, 2}, {0x0e, 0}, {0xff, 0x80}, {0x03, 0x80, 0x80, 0x80, 3, 0, 1, 0xe0}, {0x10, 1, 1}};
    for (const char* t : {"esds", "iods"})
      for (std::size_t n = 0; n <= 3; ++n)
        mc::product(vector<std::size_t>(n, tok.size()), [&](auto& d) {
          Bytes v = {0, 0, 0, 0};
          for (auto i : d) v.insert(v.end(), tok[i].begin(), tok[i].end());
          go(ut::str(ut::box(t, v)), [&] { return string("descriptors in ") + t; });
          v.pop_back();
          go(ut::str(ut::box(t, v)), [&] { return string("descriptors in ") + t; });
        });
  }
  m.phase("muxed files and their beginnings");
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) {
      const string whole = mux(hist(fast, {k}, {add(0, 3, true), add(0, 2)}));
      for (std::size_t n = 0; n <= whole.size(); n += n + 1 < whole.size() && !th ? 5 : 1) go(whole.substr(0, n), [&] { return string("muxed ") + kname(Kind(k)) + " cut at " + to_string(n); });
    }
  m.phase("failing inputs and outputs");
  {
    // an input that fails at every operation, and an output that fails
    struct In : std::stringbuf {
      u64 ops = 0, at;
      bool thr;
      In(const string& s, u64 a, bool t) : std::stringbuf(s, std::ios_base::in), at(a), thr(t) {}
      pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode w) override {
        if (ops++ == at) return fail();
        return std::stringbuf::seekoff(o, d, w);
      }
      pos_type seekpos(pos_type p, std::ios_base::openmode w) override {
        if (ops++ == at) return fail();
        return std::stringbuf::seekpos(p, w);
      }
      pos_type fail() const {
        if (thr) throw std::runtime_error("input failed");
        return pos_type(off_type(-1));
      }
    };
    struct Out : std::streambuf {
      u64 left;
      explicit Out(u64 n) : left(n) {}
      int_type overflow(int_type c) override { return left ? (--left, traits_type::not_eof(c)) : throw std::runtime_error("output failed"); }
    };
    vector<string> files;
    for (const vector<Item>& l : vector<vector<Item>>{{{0, 0, SMALL}, {1, 2, SMALL}, {2, 1, LARGE}, {0, 4, SMALL}}, {{0, 0, LARGE}, {1, 11, SMALL}, {0, 1, TO_EOF}}, {}}) files.push_back(generate(l).bytes);
    files.push_back(mux(hist(false, {AAC}, {add(0, 3)})));
    for (auto& s : files)
      for (int exc = 0; exc < 3; ++exc)
        for (u64 k = 0; k < (th ? 400 : 120); ++k) {
          if (!m.next()) continue;
          owned(
              m,
              [&] {
                Seen r;
                Out dev(exc == 2 ? k : ~0ULL);
                auto* old = std::cout.rdbuf(&dev);
                if (exc == 2) std::cout.exceptions(std::ios_base::badbit);
                try {
                  In b(s, exc == 2 ? ~0ULL : k, exc == 1);
                  std::istream is(&b);
                  if (exc == 1) is.exceptions(std::ios_base::badbit);
                  lib::reader::SimpleReader rd(is);
                  rd.read();
                } catch (const std::exception&) {
                  r.refused = true;
                }
                std::cout.exceptions(std::ios_base::goodbit);
                std::cout.rdbuf(old);
                std::cout.clear();
                return r;
              },
              [&] { return string(exc == 2 ? "output" : "input") + " fails at operation " + to_string(k) + (exc == 1 ? " by throwing" : "") + " file " + mc::hex(s, 200); });
        }
  }
}

// ---------------------------------------------------------------- boxes
static void boxes(mc::MC& m) {
  m.phase("boxes from the registry");
  vector<string> types = {"zzzz"};
  for (const char* t : {"ftyp", "styp", "free", "skip", "mdat", "moov", "mvhd", "trak", "tkhd", "edts", "elst", "mdia", "mdhd", "hdlr", "minf", "vmhd", "smhd", "dinf", "dref", "url ", "urn ", "stbl", "stsd", "stts", "ctts", "stsc", "stsz", "stco", "co64", "stss", "sdtp", "sbgp", "sgpd", "avc1", "avcC", "vp08", "vp09", "vpcC", "av01", "av1C", "mp4a", "Opus", "dOps", "esds", "btrt", "colr", "fiel", "pasp", "udta", "meta", "ilst", "data", "mvex", "mehd", "trex", "moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mfra", "tfra", "mfro", "sidx", "emsg", "pssh", "iods", "sinf", "schi", "wave", "\251nam"}) types.push_back(t);
  for (auto& t : types)
    for (int way = 0; way < 6; ++way)
      for (int fill : {0, 1, 255})
        for (u64 n : {0, 3, 4, 8, 12, 24, 40, 80, 120}) {
          if (!m.next()) continue;
          owned(
              m,
              [&] {
                Seen s;
                lib::BoxMap bm;
                lib::register_box_map(&bm);
                lib::BoxType bt;
                bt.setData(static_cast<u8>(t[0]), static_cast<u8>(t[1]), static_cast<u8>(t[2]), static_cast<u8>(t[3]));
                const string d(n, static_cast<char>(fill));
                try {
                  std::istringstream is(ut::str(ut::Enc().u32(8 + n).str(t).v) + d);
                  if (way == 0) {  // with a header
                    std::unique_ptr<lib::Box> b(bm.getBoxInstance(lib::read_box_header(is)));
                    b->seekToData(is);
                    b->readData(is);
                    (void)b->toString();
                  } else if (way == 1) {  // in a tree
                    auto* b = bm.getBoxInstance(bt);
                    lib::BoxInfo root({.box = new lib::box::Moov()});
                    new lib::BoxInfo({.parent = &root, .box = b});
                    is.seekg(8);
                    b->readData(is);
                    root.adjustOffsetAndSize(0);
                    std::ostringstream os;
                    root.write(os);
                    (void)root.toString();
                    root.adjustOffsetAndSize(100);
                  } else if (way == 2) {  // a header made by itself first, and then one handed over
                    std::unique_ptr<lib::Box> b(bm.getBoxInstance(bt));
                    (void)b->getHeaderSize();
                    b->setHeader(lib::read_box_header(is));
                    b->readData(is);
                  } else if (way == 3) {  // two headers handed over, the second twice
                    std::unique_ptr<lib::Box> b(bm.getBoxInstance(lib::read_box_header(is)));
                    is.seekg(0);
                    auto* h = lib::read_box_header(is);
                    b->setHeader(h);
                    b->setHeader(h);
                    b->readData(is);
                  } else if (way == 4) {  // read into twice
                    std::unique_ptr<lib::Box> b(bm.getBoxInstance(lib::read_box_header(is)));
                    b->readData(is);
                    is.clear();
                    is.seekg(8);
                    b->readData(is);
                  } else {  // a name registered anew
                    lib::register_box_map(&bm);
                    bm.addBoxDef([] { return new lib::box::Free(); }, bt, {0});
                    std::unique_ptr<lib::Box> b(bm.getBoxInstance(bt));
                    is.seekg(8);
                    b->readData(is);
                  }
                  s.at = 1;
                } catch (const std::exception&) {
                  s.refused = true;
                }
                return s;
              },
              [&] { return "box " + shown(t) + " way " + to_string(way) + ", " + to_string(n) + " bytes of " + to_string(fill); });
        }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  spdlog::set_level(spdlog::level::off);
  const char* sc = getenv("MC_SCRATCH");
  g_dir = string(sc ? sc : "/tmp") + "/own-" + to_string(getpid());
  fs::create_directories(g_dir);
  muxing(m);
  reading(m);
  boxes(m);
  fs::remove_all(g_dir);
  return m.finish();
}
