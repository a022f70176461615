// P17 well-formed files, P18 malformed files, P20 truncated files, P28 the command-line tool.
//
// Files are generated as box trees together with what has to be printed about them; for changed files an independent
// parser decides whether the file is still a proper nesting of boxes, and what has to be printed then.
#define MX_CLOCK
#include "mux.hpp"
#include "files.hpp"

#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

using namespace mx;

// ---------------------------------------------------------------- memory accounting (P18)
static bool g_track = false;
static u64 g_live = 0, g_peak = 0;
static void* counted(std::size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_track) {
    g_live += malloc_usable_size(p);
    if (g_live > g_peak) g_peak = g_live;
  }
  return p;
}
static void uncounted(void* p) {
  if (p && g_track) {
    const u64 n = malloc_usable_size(p);
    g_live = g_live > n ? g_live - n : 0;
  }
  free(p);
}
void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t) noexcept { uncounted(p); }

// ---------------------------------------------------------------- the real reader
struct Dump {
  bool ok = false;
  string out, what;
  u64 peak = 0;
  bool ok2 = false;  // the same reader asked once more
  string out2;
};
static Dump dump(const string& s) {
  Dump d;
  std::ostringstream cap, cap2;
  auto* old = std::cout.rdbuf(cap.rdbuf());
  try {
    std::istringstream is(s);
    g_live = g_peak = 0;
    g_track = true;
    {
      lib::reader::SimpleReader r(is);
      std::exception_ptr why;
      try {
        r.read();
      } catch (...) {
        why = std::current_exception();
      }
      const u64 peak = g_peak;
      std::cout.rdbuf(cap2.rdbuf());
      std::cout.clear();
      try {
        r.read();
        d.ok2 = true;
      } catch (const std::exception&) {
      }
      g_peak = peak;
      if (why) std::rethrow_exception(why);
    }
    g_track = false;
    d.ok = true;
  } catch (const std::exception& e) {
    g_track = false;
    d.what = e.what();
  } catch (...) {
    g_track = false;
    std::cout.rdbuf(old);
    throw std::runtime_error("threw something that is no std::exception");
  }
  d.peak = g_peak;
  std::cout.rdbuf(old);
  std::cout.clear();
  d.out = cap.str();
  d.out2 = cap2.str();
  return d;
}

static string first_difference(const string& got, const string& want) {
  std::istringstream a(got), b(want);
  string x, y;
  for (int n = 1;; ++n) {
    const bool p = !!std::getline(a, x), q = !!std::getline(b, y);
    if (!p && !q) return "no line differs";
    if (p != q || x != y) return "line " + to_string(n) + ": " + (p ? "\"" + x.substr(0, 300) + "\"" : "none") + " instead of " + (q ? "\"" + y.substr(0, 300) + "\"" : "none");
  }
}

// what has to come out: verdict 1 well-formed, 0 malformed, -1 unknown
static void judge(mc::MC& m, const string& s, int verdict, const vector<Line>& lines, const std::function<string()>& where, bool memory = false) {
  m.trace();
  m.trans(1 + lines.size());
  m.state(mc::hash(s));
  Dump d;
  try {
    d = dump(s);
  } catch (const std::exception& e) {
    return m.fail("exception", e.what(), where());
  }
  m.outcome(mc::hash(d.out, d.ok));
  m.eval(verdict == 1 ? lines.size() > 1 : !d.ok);
  m.sample([&] { return where() + (d.ok ? " -> " + to_string(std::count(d.out.begin(), d.out.end(), '\n')) + " lines" : " -> refused: " + d.what); });
  if (!d.ok && !d.out.empty()) return m.fail("printed", "refused (" + d.what + "), but printed \"" + d.out.substr(0, 200) + "\"", where());
  if (!d.ok && d.ok2) return m.fail("again:accepted", "refused (" + d.what + "), but then taken by the same reader", where());
  if (!d.ok2 && !d.out2.empty()) return m.fail("again:printed", "reading again was refused, but printed \"" + d.out2.substr(0, 200) + "\"", where());
  if (d.ok && d.ok2 && d.out2 != d.out) return m.fail("again:lines", "reading again: " + first_difference(d.out2, d.out), where());
  if (verdict == 1) {
    if (!d.ok) return m.fail("refused", "well-formed, but refused: " + d.what, where());
    const string want = text(lines);
    if (d.out != want) return m.fail("lines", first_difference(d.out, want), where());
  }
  if (verdict == 0 && d.ok) return m.fail("accepted", "not a proper nesting of boxes, but printed \"" + d.out.substr(0, 300) + "\"", where());
  if (memory && d.peak > (4U << 20) + 100 * s.size())
    return m.fail("memory", "took " + to_string(d.peak) + " bytes of memory for a file of " + to_string(s.size()), where());
}

static string hexfile(const string& s) { return "file " + mc::hex(s, 400); }

// ---------------------------------------------------------------- P17
static void well_formed(mc::MC& m) {
  const int all = static_cast<int>(node_kinds().size());
  auto go = [&](const vector<Item>& l) {
    if (!m.next()) return;
    const Gen g = generate(l);
    // the model agrees, or does not know
    vector<Line> ml;
    if (model(g.bytes, &ml) == 0) return m.fail("model", "the model refuses a generated file", name(l));
    judge(m, g.bytes, 1, g.lines, [&] { return name(l) + " " + hexfile(g.bytes); });
  };
  struct Space { int n, kinds, forms; };
  vector<Space> spaces = {{0, 1, 1}, {1, all, 3}, {2, all, 3}, {3, 16, 3}, {4, 8, 2}, {5, 3, 3}, {6, 2, 3}, {8, 2, 1}};
  if (m.thorough) spaces = {{0, 1, 1}, {1, all, 3}, {2, all, 3}, {3, CORE_KINDS, 3}, {4, 12, 3}, {5, 5, 3}, {6, 3, 2}, {7, 2, 3}, {10, 2, 1}};
  for (auto& s : spaces) {
    m.phase("trees of " + to_string(s.n) + " boxes");
    trees(s.n, s.kinds, s.forms, go);
  }
  m.phase("deep files");
  vector<int> cont;
  for (int k = 0; k < all; ++k)
    if (node_kinds()[static_cast<std::size_t>(k)].container) cont.push_back(k);
  for (int depth : {3, 10, 100, 255, 256})
    for (int f = 0; f < 3; ++f)
      for (int k : cont) {
        vector<Item> l;
        const bool audio = node_kinds()[static_cast<std::size_t>(k)].type == "mp4a";
        for (int d = 0; d < depth; ++d) l.push_back({d, audio && d % 2 ? 0 : k, f});
        go(l);
        l.back().kind = 1;
        go(l);
      }
  m.phase("lists of children");
  {
    // every container with every short list of children of some kinds
    vector<int> some;
    for (const char* n : {"opaque", "mp4a", "moov", "empty", "stts", "avc1"})
      for (int k = 0; k < all; ++k)
        if (node_kinds()[static_cast<std::size_t>(k)].name == n) some.push_back(k);
    for (int c : cont)
      for (std::size_t n = 3; n <= (m.thorough ? 6U : 4U); ++n)
        mc::product(vector<std::size_t>(n, n > 4 ? 4 : some.size()), [&](auto& d) {
          vector<Item> l = {{0, c, SMALL}};
          for (auto i : d) l.push_back({1, some[i], SMALL});
          l.push_back({0, 1, SMALL});
          go(l);
        });
  }
  // every kind of container in turn
  {
    vector<Item> l;
    for (int d = 0; d < 256; ++d) l.push_back({d, cont[static_cast<std::size_t>(d) % 5], d % 2});
    go(l);
  }
  m.phase("wide files");
  for (int n : {10, 255, 256, 257, 1000, m.thorough ? 65537 : 4000})
    for (int k : {0, 1, 3, 4})
      for (int depth : {0, 1, 2}) {
        vector<Item> l;
        for (int d = 0; d < depth; ++d) l.push_back({d, d ? 2 : 0, SMALL});
        for (int i = 0; i < n; ++i) l.push_back({depth, k, i % 3 == 1 ? LARGE : SMALL});
        l.push_back({0, 1, SMALL});
        go(l);
      }
  m.phase("large contents");
  for (u64 n : {255, 256, 4095, 4096, 65535, 65536, 70000, 300000}) {
    if (!m.next()) continue;
    const Bytes data = payload(1, 1, n);
    ut::Enc e;
    e.bytes(ut::box("moov", ut::box("zzzz", data))).bytes(ut::box("mdat", data)).bytes(ut::box("free", {}));
    vector<Line> l = {{0, "moov", 0, n + 16, {}}, {1, "zzzz", 8, n + 8, data}, {0, "mdat", n + 16, n + 8, data}, {0, "free", 2 * n + 24, 8, {}}};
    judge(m, ut::str(e.v), 1, l, [&] { return "contents of " + to_string(n) + " bytes"; });
  }
}

// ---------------------------------------------------------------- P18
static vector<u64> bad_sizes(u64 size, u64 rest, u64 parent_rest) {
  std::set<u64> s = {0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 17, 24, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8};
  for (u64 x : {size, rest, parent_rest})
    for (int d : {-16, -8, -1, 0, 1, 4, 8, 16}) s.insert((x + static_cast<u64>(static_cast<i64>(d))) & 0xffffffff);
  return {s.begin(), s.end()};
}
static const vector<u64>& bad_sizes64() {
  static const vector<u64> s = {0, 1, 8, 15, 16, 17, 24, 0x100000000ULL, 0x100000010ULL, 0x100000018ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000010ULL,
                                0xffffffffffffffffULL, 0xfffffffffffffff8ULL, 0xfffffffffffffff0ULL, 0xffffffffffffffe8ULL};
  return s;
}
static string poke(string s, u64 at, u64 v, int n) {
  for (int i = 0; i < n; ++i)
    if (at + static_cast<u64>(i) < s.size()) s[at + static_cast<u64>(i)] = static_cast<char>(v >> (8 * (n - 1 - i)));
  return s;
}

static void malformed(mc::MC& m) {
  const bool th = m.thorough;
  auto go = [&](const string& s, const std::function<string()>& note) {
    if (!m.next()) return;
    vector<Line> l;
    const int v = model(s, &l);
    if (v != 1) l.clear();
    judge(m, s, v, l, [&] { return note() + " " + hexfile(s); }, true);
  };
  auto plain = [] { return string("bytes"); };

  m.phase("sequences of headers and bytes");
  {
    vector<string> tok;
    for (const char* t : {"moov", "zzzz", "stts", "meta"})
      for (u64 z : {0ULL, 1ULL, 7ULL, 8ULL, 9ULL, 16ULL, 24ULL, 32ULL, 0x80000000ULL, 0xffffffffULL}) tok.push_back(ut::str(ut::Enc().u32(z).str(t).v));
    for (const char* t : {"moov", "zzzz"})
      for (u64 z : bad_sizes64()) tok.push_back(ut::str(ut::Enc().u32(1).str(t).u64(z).v));
    for (std::size_t n : {1, 4, 8}) tok.push_back(string(n, '\0'));
    for (std::size_t n = 0; n <= (th ? 4 : 3); ++n)
      mc::product(vector<std::size_t>(n, tok.size()), [&](auto& d) {
        string s;
        for (auto i : d) s += tok[i];
        go(s, plain);
      });
  }
  m.phase("trees with changed sizes, cut and corrupted");
  auto change = [&](const vector<Item>& l, bool pairs, bool bytes) {
    const Gen g = generate(l);
    auto note = [&] { return "from " + name(l); };
    // one size, or two, replaced
    vector<vector<string>> alts;  // per box: files with that box's size replaced; only for singles
    for (std::size_t i = 0; i < l.size(); ++i) {
      u64 parent_end = g.bytes.size();
      for (std::size_t p = i; p-- > 0;)
        if (l[p].depth < l[i].depth) {
          parent_end = g.lines[p].off + g.lines[p].size;
          break;
        }
      const auto sz = bad_sizes(g.lines[i].size, g.bytes.size() - g.lines[i].off, parent_end - g.lines[i].off);
      for (u64 z : sz) {
        const string s = poke(g.bytes, g.lines[i].off, z, 4);
        go(s, note);
        if (!pairs) continue;
        for (std::size_t j = i + 1; j < l.size(); ++j)
          for (u64 y : vector<u64>{0, 1, 7, 8, 16, 0xffffffff, g.lines[j].size - 1, g.lines[j].size + 1, g.lines[j].size + 8}) go(poke(s, g.lines[j].off, y, 4), note);
      }
      if (l[i].form == LARGE)
        for (u64 z : bad_sizes64()) go(poke(g.bytes, g.lines[i].off + 8, z, 8), note);
    }
    for (std::size_t n = 0; n < g.bytes.size(); ++n) go(g.bytes.substr(0, n), note);
    if (!bytes) return;
    for (std::size_t i = 0; i < g.bytes.size(); ++i)
      for (int v : {0x00, 0x01, 0x07, 0x08, 0x7f, 0x80, 0xff}) go(poke(g.bytes, i, static_cast<u64>(v), 1), note);
    for (std::size_t n = 1; n <= 9; ++n) go(g.bytes + string(n, '\0'), note), go(g.bytes + string(n, '\xff'), note);
  };
  const int all = static_cast<int>(node_kinds().size());
  trees(1, all, 3, [&](auto& l) { change(l, false, true); });
  trees(2, 12, 3, [&](auto& l) { change(l, true, l[0].form == SMALL && l[1].form == SMALL); });
  trees(3, th ? 12 : 4, th ? 3 : 2, [&](auto& l) { change(l, th, false); });
  trees(4, th ? 4 : 3, th ? 3 : 1, [&](auto& l) { change(l, th, false); });
  if (th) trees(5, 3, 1, [&](auto& l) { change(l, false, false); });

  m.phase("deep files");
  for (int n : {250, 255, 256, 257, 258, 300, 1000, 20000, th ? 400000 : 100000})
    for (int form = 0; form < 4; ++form) {
      // n boxes inside each other: short headers, long headers, all to the end of the file, sizes that are right only for the first
      ut::Enc e;
      const u64 h = form == 1 ? 16 : 8;
      for (int i = 0; i < n; ++i) {
        const u64 size = h * static_cast<u64>(n - i);
        e.u32(form == 2 ? 0 : form == 1 ? 1 : form == 3 ? h * static_cast<u64>(n) : size).str("moov");
        if (form == 1) e.u64(size);
      }
      const string s = ut::str(e.v);
      if (!m.next()) continue;
      vector<Line> l;
      int v = 0;
      if (n <= 300) v = model(s, &l);
      if (v != 1) l.clear();
      judge(m, s, v, l, [&] { return to_string(n) + " boxes inside each other, form " + to_string(form); }, true);
    }
  // deep and heavy
  for (int n : {10, 100, 250})
    for (u64 z : {10000, 100000}) {
      if (!m.next()) continue;
      string s(z, '\1');
      s = ut::str(ut::Enc().u32(z + 8).str("zzzz").v) + s;
      for (int i = 0; i < n; ++i) s = ut::str(ut::Enc().u32(s.size() + 8).str("moov").v) + s;
      vector<Line> l;
      const int v = model(s, &l);
      judge(m, s, v, l, [&] { return to_string(z) + " bytes inside " + to_string(n) + " boxes"; }, true);
      if (!m.next()) continue;
      s.pop_back();
      judge(m, s, 0, {}, [&] { return to_string(z) + " bytes inside " + to_string(n) + " boxes, one missing"; }, true);
    }
  m.phase("counts and lengths that announce more than there is");
  for (const char* t : {"stts", "ctts", "stsc", "stsz", "stco", "co64", "stss", "sdtp", "sbgp", "sgpd", "elst", "trun", "tfra", "sidx", "pssh", "emsg", "esds", "avcC", "vpcC", "iods", "hdlr", "colr", "dOps", "av1C", "data", "mfro", "tfhd"})
    for (u64 count : {0x10ULL, 0xffffULL, 0x10000ULL, 0xffffffULL, 0x1fffffffULL, 0x20000001ULL, 0x40000000ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL})
      for (int at = 0; at <= 20; at += 4)
        for (u64 fill : {0x00ULL, 0x01ULL, 0xffULL}) {
          string d(24, static_cast<char>(fill));
          if (at > 0) d = poke(d, 0, fill == 1 ? 0x01000000 : 0, 4);
          d = poke(d, static_cast<u64>(at), count, 4);
          if (!m.next()) continue;
          const string s = ut::str(ut::box("moov", ut::box(t, ut::bytes(d))));
          judge(m, s, -1, {}, [&] { return string("count in ") + t + " " + hexfile(s); }, true);
        }
}

// ---------------------------------------------------------------- muxed files
static Op add(int t, u64 size, bool key = false) {
  Op o;
  o.t = t;
  o.size = size;
  o.key = key;
  return o;
}
static Hist hist(bool fast, const vector<int>& kinds, const vector<Op>& ops) {
  Hist h;
  h.fast = fast;
  for (int k : kinds) {
    TSpec t;
    t.k = Kind(k);
    t.ps = true;
    h.tr.push_back(t);
  }
  vector<bool> open(h.tr.size(), false);
  vector<u64> n(h.tr.size(), 0);
  for (auto o : ops) {
    for (std::size_t t = 0; t < open.size(); ++t)
      if (open[t] && static_cast<int>(t) != o.t) {
        Op e;
        e.t = static_cast<int>(t);
        e.term = true;
        h.ops.push_back(e);
        open[t] = false;
      }
    open[static_cast<std::size_t>(o.t)] = true;
    o.ts = 10 * n[static_cast<std::size_t>(o.t)]++;
    h.ops.push_back(o);
  }
  return h;
}
static void lines_of(const vector<Node>& l, int depth, vector<Line>* out) {
  for (auto& n : l) {
    out->push_back({depth, n.type, n.off, n.size, {}, false, false});
    lines_of(n.kids, depth + 1, out);
  }
}
static string prefix(const Line& l) {
  return string(2 * static_cast<std::size_t>(l.depth), ' ') + "[" + shown(l.type) + "] Offset=" + to_string(l.off) + " Size=" + to_string(l.size);
}
static vector<string> split(const string& s) {
  vector<string> r;
  std::istringstream is(s);
  string x;
  while (std::getline(is, x)) r.push_back(x);
  return r;
}
static vector<Hist> muxed(bool th) {
  vector<Hist> r;
  for (int fast = 0; fast < 2; ++fast) {
    r.push_back(hist(fast, {}, {}));
    for (int k = 0; k < NKIND; ++k) {
      r.push_back(hist(fast, {k}, {add(0, 3, true), add(0, 2), add(0, 40, true)}));
      r.push_back(hist(fast, {k}, {}));
      for (int k2 = 0; k2 < NKIND; ++k2) {
        r.push_back(hist(fast, {k, k2}, {add(0, 3, true), add(1, 2), add(0, 5), add(1, 9, true)}));
        for (int k3 = 0; k3 < (th ? NKIND : 0); ++k3) r.push_back(hist(fast, {k, k2, k3}, {add(0, 3, true), add(2, 2), add(1, 300), add(2, 0), add(0, 9, true)}));
      }
    }
    r.push_back(hist(fast, {VP9, OPUS}, {add(0, 3, true), add(1, 2), add(0, 5), add(1, 9, true)}));
    r.push_back(hist(fast, {H264, AAC, MP3}, {add(0, 3, true), add(1, 200), add(0, 5), add(2, 9), add(1, 7)}));
    vector<Op> many;
    for (int i = 0; i < (th ? 100 : 20); ++i) many.push_back(add(i % 2, static_cast<u64>(i), i % 5 == 0));
    r.push_back(hist(fast, {AV1, OPUS}, many));
  }
  return r;
}

// ---------------------------------------------------------------- P20
static void truncated(mc::MC& m) {
  auto hs = muxed(m.thorough);
  for (int fast = 0; fast < 2; ++fast)  // longer than what is read at a time
    for (int k : {int(H264), int(VP9), int(MP3)}) {
      hs.push_back(hist(fast, {k, AAC}, {add(0, 4100, true), add(1, 3), add(0, 4096), add(0, 1), add(0, 7), add(1, 2000)}));
      if (m.thorough) hs.push_back(hist(fast, {k, AAC}, {add(0, 65540, true), add(1, 300), add(0, 40000)}));
    }
  for (auto& h : hs) {
    m.phase("cuts of " + h.str());
    const string whole = mux(h);
    const auto nodes = parse(StrSrc{whole}, 0, whole.size());
    const Dump wd = dump(whole);
    const auto wl = split(wd.out);
    vector<Line> want;
    lines_of(nodes, 0, &want);
    for (std::size_t cut = 0; cut <= whole.size(); ++cut) {
      if (!m.next()) continue;
      auto where = [&] { return h.str() + " cut at " + to_string(cut) + " of " + to_string(whole.size()); };
      m.trace();
      m.trans();
      m.state(mc::hash(whole.substr(0, cut)));
      const string s = whole.substr(0, cut);
      const Dump d = dump(s);
      m.outcome(mc::hash(d.out, d.ok));
      bool boundary = cut == 0;
      for (auto& n : nodes) boundary = boundary || n.end() == cut;
      m.eval(!boundary);
      m.sample(where);
      if (!boundary) {
        if (d.ok) m.fail("accepted", "taken for a whole file, printed \"" + d.out.substr(0, 200) + "\"", where());
        else if (!d.out.empty()) m.fail("printed", "refused, but printed \"" + d.out.substr(0, 200) + "\"", where());
        continue;
      }
      if (!d.ok) {
        m.fail("refused", "cut between boxes, but refused: " + d.what, where());
        continue;
      }
      // exactly the complete boxes, as in the dump of the whole file
      std::size_t n = 0;
      for (auto& l : want) n += l.off + l.size <= cut;
      const auto got = split(d.out);
      if (got.size() != n) {
        m.fail("count", to_string(got.size()) + " lines instead of " + to_string(n), where());
        continue;
      }
      for (std::size_t i = 0; i < n; ++i) {
        const string p = prefix(want[i]);
        if (got[i].substr(0, p.size()) != p || (got[i].size() > p.size() && got[i][p.size()] != ' ')) {
          m.fail("line", "line \"" + got[i].substr(0, 200) + "\" instead of \"" + p + "\"", where());
          break;
        }
        if (i >= wl.size() || got[i] != wl[i]) {
          m.fail("line:whole", "line \"" + got[i].substr(0, 200) + "\" differs from the dump of the whole file", where());
          break;
        }
      }
    }
  }
}

// ---------------------------------------------------------------- P28
struct Run {
  int status = 0;  // as from waitpid
  string out;
};
static string g_dir;
static string slurp(const string& p) {
  std::ifstream f(p, std::ios_base::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
static Run run(const vector<string>& args, const char* device = nullptr, rlim_t most = 0) {
  const char* tool = getenv("MC_TOOL");
  if (!tool) throw std::runtime_error("MC_TOOL is not set");
  const string out = g_dir + "/out";
  vector<string> a = {tool};
  a.insert(a.end(), args.begin(), args.end());
  vector<char*> argv;
  for (auto& x : a) argv.push_back(x.data());
  argv.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  if (device && !*device) posix_spawn_file_actions_addclose(&fa, 1);
  else posix_spawn_file_actions_addopen(&fa, 1, device ? device : out.c_str(), O_WRONLY | (device ? 0 : O_CREAT | O_TRUNC), 0600);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  // an output that takes only so much: a file size limit, inherited by the tool, with SIGXFSZ ignored
  struct rlimit old{};
  auto* sig = SIG_DFL;
  if (most) {
    getrlimit(RLIMIT_FSIZE, &old);
    const struct rlimit lim{most, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &lim);
    sig = signal(SIGXFSZ, SIG_IGN);
  }
  pid_t pid;
  if (posix_spawn(&pid, tool, &fa, nullptr, argv.data(), environ) != 0) throw std::runtime_error("cannot run the tool");
  posix_spawn_file_actions_destroy(&fa);
  if (most) {
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, sig);
  }
  Run r;
  waitpid(pid, &r.status, 0);
  r.out = slurp(out);
  return r;
}
static string status(int s) { return WIFEXITED(s) ? "status " + to_string(WEXITSTATUS(s)) : "signal " + to_string(WTERMSIG(s)); }

static void tool_judge(mc::MC& m, const string& file, const vector<string>& args, int verdict, const string& want, const std::function<string()>& where) {
  struct stat before{}, after{};
  const bool exists = stat(file.c_str(), &before) == 0;
  const bool regular = exists && S_ISREG(before.st_mode);
  const string content = regular ? slurp(file) : "";
  m.trace();
  m.trans();
  m.state(mc::hash(content, mc::hash(file.substr(file.rfind('/')), args.size())));
  const Run r = run(args);
  const bool zero = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0;
  m.outcome(mc::hash(r.out, static_cast<u64>(r.status)));
  m.eval(verdict != 1 || !want.empty());
  m.sample([&] { return where() + " -> " + status(r.status); });
  if (regular) {
    if (stat(file.c_str(), &after) != 0 || after.st_ino != before.st_ino || after.st_size != before.st_size || after.st_mode != before.st_mode ||
        after.st_mtim.tv_sec != before.st_mtim.tv_sec || after.st_mtim.tv_nsec != before.st_mtim.tv_nsec || slurp(file) != content)
      return m.fail("tool:modified", "the input file is not what it was", where());
  } else if (!exists && stat(file.c_str(), &after) == 0) {
    return m.fail("tool:created", "the input file was created", where());
  }
  if (verdict == 1) {
    if (!zero) return m.fail("tool:status", "well-formed, but ended with " + status(r.status), where());
    if (r.out != want) return m.fail("tool:lines", first_difference(r.out, want), where());
  } else {
    if (zero) return m.fail("tool:zero", "malformed or unreadable, but ended with status 0", where());
    if (r.out.find('[') != string::npos) return m.fail("tool:printed", "malformed or unreadable, but printed \"" + r.out.substr(0, 200) + "\"", where());
  }
}

static void tool(mc::MC& m) {
  rlimit lim{0, 0};
  setrlimit(RLIMIT_CORE, &lim);
  const char* sc = getenv("MC_SCRATCH");
  g_dir = string(sc ? sc : "/tmp") + "/tool-" + to_string(getpid());
  std::filesystem::create_directories(g_dir);
  const string file = g_dir + "/in.mp4";
  auto put = [&](const string& s, const string& f) {
    std::ofstream o(f, std::ios_base::binary | std::ios_base::trunc);
    o << s;
  };
  auto go = [&](const string& s, int verdict, const string& want, const std::function<string()>& where, vector<string> args = {}) {
    put(s, file);
    if (args.empty()) args = {"dump", "-f", file};
    tool_judge(m, file, args, verdict, want, where);
  };
  const int all = static_cast<int>(node_kinds().size());
  m.phase("the tool on well-formed files");
  auto good = [&](const vector<Item>& l) {
    if (!m.next()) return;
    const Gen g = generate(l);
    go(g.bytes, 1, text(g.lines), [&] { return "dump of " + name(l); });
  };
  trees(0, 1, 1, good);
  trees(1, all, 3, good);
  trees(2, m.thorough ? all : 12, 3, good);
  trees(3, m.thorough ? 8 : 5, m.thorough ? 3 : 2, good);
  trees(4, m.thorough ? 4 : 3, m.thorough ? 3 : 1, good);
  trees(5, m.thorough ? 3 : 2, m.thorough ? 2 : 1, good);
  m.phase("the tool on malformed files");
  auto bad = [&](const vector<Item>& l) {
    const Gen g = generate(l);
    auto one = [&](const string& s) {
      vector<Line> ml;
      const int v = model(s, &ml);
      if (v < 0) return;
      if (!m.next()) return;
      go(s, v, v == 1 ? text(ml) : "", [&] { return "dump from " + name(l) + " " + hexfile(s); });
    };
    for (std::size_t i = 0; i < l.size(); ++i)
      for (u64 z : vector<u64>{0, 1, 7, 8, 0xffffffff, g.lines[i].size - 1, g.lines[i].size + 1}) one(poke(g.bytes, g.lines[i].off, z, 4));
    for (std::size_t n = 0; n < g.bytes.size(); n += m.thorough ? 1 : 1 + g.bytes.size() / 8) one(g.bytes.substr(0, n));
  };
  trees(1, all, 3, bad);
  trees(2, m.thorough ? 16 : 6, m.thorough ? 3 : 2, bad);
  trees(3, m.thorough ? 6 : 3, m.thorough ? 2 : 1, bad);
  for (int n : {256, 257, 1000, 100000}) {
    if (!m.next()) continue;
    ut::Enc e;
    for (int i = 0; i < n; ++i) e.u32(8 * static_cast<u64>(n - i)).str("moov");
    vector<Line> l;
    const string s = ut::str(e.v);
    const int v = n > 256 ? 0 : model(s, &l);
    go(s, v, v == 1 ? text(l) : "", [&] { return to_string(n) + " boxes inside each other"; });
  }
  m.phase("the tool on muxed files and their beginnings");
  for (auto& h : muxed(m.thorough)) {
    const string whole = mux(h);
    const auto nodes = parse(StrSrc{whole}, 0, whole.size());
    vector<Line> want;
    lines_of(nodes, 0, &want);
    std::set<u64> cuts;
    for (auto& n : nodes)
      for (int d : {-9, -1, 0, 1, 4, 8, 9}) cuts.insert(n.end() + static_cast<u64>(static_cast<i64>(d)));
    const u64 steps = m.thorough ? 200 : 12;
    for (u64 i = 0; i < steps; ++i) cuts.insert(whole.size() * i / steps);
    for (u64 c : cuts) {
      if (c > whole.size() || !m.next()) continue;
      const string s = whole.substr(0, c);
      bool boundary = c == 0;
      for (auto& n : nodes) boundary = boundary || n.end() == c;
      // the text is the reader's, which P17 and P20 judge; the number of lines is the number of whole boxes
      const Dump d = dump(s);
      std::size_t n = 0;
      for (auto& l : want) n += l.off + l.size <= c;
      if (boundary && split(d.out).size() != n) {
        m.fail("tool:count", "the reader prints " + to_string(split(d.out).size()) + " lines instead of " + to_string(n), h.str() + " cut at " + to_string(c));
        continue;
      }
      go(s, boundary, boundary ? d.out : "", [&] { return "dump of " + h.str() + " cut at " + to_string(c); });
    }
  }
  m.phase("ways to call the tool");
  {
    const Gen g = generate({{0, 0, SMALL}, {1, 2, SMALL}, {2, 1, LARGE}, {0, 4, SMALL}});
    const Gen big = generate({{0, 0, LARGE}, {1, 11, SMALL}, {0, 1, TO_EOF}});
    for (auto* x : {&g, &big})
      for (int bad = 0; bad < 2; ++bad) {
        const string s = bad ? x->bytes.substr(0, x->bytes.size() - 1) + (x == &big ? "" : "") : x->bytes;
        vector<Line> ml;
        const int v = model(s, &ml);
        const string want = v == 1 ? text(ml) : "";
        vector<vector<string>> ways = {{"dump", "--file", file}, {"dump", "--file=" + file}, {"dump", "-f" + file}};
        for (const char* lv : {"trace", "debug", "info", "warn", "error", "critical", "off", "TRACE", "Off"}) {
          ways.push_back({"-l", lv, "dump", "-f", file});
          ways.push_back({string("--log-level=") + lv, "dump", "-f", file});
        }
        for (auto& w : ways) {
          if (!m.next()) continue;
          string all_args;
          for (auto& a : w) all_args += " " + a;
          go(s, v, want, [&] { return "mp4-tool" + all_args + " on " + hexfile(s); }, w);
        }
      }
    // an output that cannot take what is printed
    for (auto* x : {&g, &big}) {
      const string want = text(x->lines);
      auto refused = [&](const char* device, rlim_t most, const string& what) {
        if (!m.next()) return;
        put(x->bytes, file);
        m.trace();
        m.trans();
        m.eval(true);
        const Run r = run({"dump", "-f", file}, device, most);
        m.outcome(mc::hash(what, static_cast<u64>(r.status)));
        if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) m.fail("tool:unprinted", "ended with status 0, though its output could not be written", "dump to " + what + " of " + hexfile(x->bytes));
        if (most && r.out.size() > most) m.fail("tool:limit", "the limit did not work", "dump to " + what);
      };
      refused("/dev/full", 0, "a full device");
      refused("", 0, "a closed output");
      for (rlim_t n = 1; n < want.size(); n += m.thorough ? 1 : 1 + want.size() / 40) refused(nullptr, n, "a file of at most " + to_string(n) + " bytes");
    }
    // names, links and permissions
    for (const char* n : {"with space.mp4", "\xe3\x83\x93.mp4", "no-extension", "-dash.mp4", "a'b\"c$d.mp4"}) {
      if (!m.next()) continue;
      const string f = g_dir + "/" + n;
      put(g.bytes, f);
      tool_judge(m, f, {"dump", "-f", f}, 1, text(g.lines), [&] { return "dump of a file named " + f; });
      std::filesystem::remove(f);
    }
    if (m.next()) {
      put(g.bytes, g_dir + "/ro");
      chmod((g_dir + "/ro").c_str(), 0400);
      tool_judge(m, g_dir + "/ro", {"dump", "-f", g_dir + "/ro"}, 1, text(g.lines), [] { return "dump of a read-only file"; });
      std::filesystem::remove(g_dir + "/ro");
    }
    // nothing to read
    if (m.next()) tool_judge(m, g_dir + "/missing", {"dump", "-f", g_dir + "/missing"}, 0, "", [] { return "dump of a file that is not there"; });
    if (m.next()) tool_judge(m, g_dir + "/missing/x", {"dump", "-f", g_dir + "/missing/x"}, 0, "", [] { return "dump of a file in a directory that is not there"; });
    if (m.next()) tool_judge(m, g_dir + "/none", {"dump", "-f", ""}, 0, "", [] { return "dump of a file without name"; });
    if (m.next()) tool_judge(m, g_dir + "/none", {"dump"}, 0, "", [] { return "dump of no file"; });
    if (m.next()) tool_judge(m, g_dir, {"dump", "-f", g_dir}, 0, "", [] { return "dump of a directory"; });
    if (m.next()) tool_judge(m, g_dir + "/none", {"dump", "-f"}, 0, "", [] { return "dump -f without name"; });
    if (m.next()) tool_judge(m, g_dir + "/none", {}, 0, "", [] { return "no command"; });
    if (m.next()) tool_judge(m, g_dir + "/none", {"undump", "-f", file}, 0, "", [] { return "unknown command"; });
    if (m.next()) {
      put(g.bytes, file);
      tool_judge(m, file, {"-l", "loud", "dump", "-f", file}, 0, "", [] { return "unknown log level"; });
    }
  }
  std::filesystem::remove_all(g_dir);
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  spdlog::set_level(spdlog::level::off);
  if (m.prop == "P17") ut::odd_locale(), well_formed(m);
  else if (m.prop == "P18") malformed(m);
  else if (m.prop == "P20") truncated(m);
  else if (m.prop == "P28") tool(m);
  else return 3;
  return m.finish();
}
