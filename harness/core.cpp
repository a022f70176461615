// P09 sample table compression, P10 box tree layout, P11 box header codec, P25 times, P26 version/flags algebra,
// P27 type codes and registry, P37 comparisons.
#include "mc.hpp"
#include "util.hpp"

#include <deque>
#include <memory>
#include <optional>

#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/track.hpp"

using namespace shiguredo::mp4;
using ut::be;
using ut::Bytes;

static std::string ser(const Box& b) {
  std::ostringstream os;
  b.writeData(os);
  return os.str();
}

// ------------------------------------------------------------------ P09
static std::string brief(const std::string& s) { return s.size() <= 600 ? s : s.substr(0, 600) + "..."; }
static std::string lst(const std::vector<std::uint64_t>& l) {
  std::string s = "[";
  std::size_t i = 0;
  while (i < l.size()) {
    std::size_t j = i;
    while (j < l.size() && l[j] == l[i]) ++j;
    s += (i ? "," : "") + std::to_string(l[i]) + (j - i > 1 ? "*" + std::to_string(j - i) : "");
    i = j;
  }
  return s + "]";
}

static void stts_case(mc::MC& m, const std::vector<std::uint64_t>& l) {
  if (!m.next()) return;
  std::vector<std::uint32_t> d(l.begin(), l.end());
  std::vector<box::SttsEntry> e;
  // left-overs of an earlier call must not survive
  e.push_back(box::SttsEntry({.sample_count = 9, .sample_duration = 9}));
  track::make_stts_entries(&e, d);
  const std::string s = ser(box::Stts({.entries = e}));
  m.trace();
  m.trans(l.size());
  m.state(mc::hash(lst(l)));
  m.outcome(mc::hash(s));
  m.sample([&] { return "durations " + brief(lst(l)) + " -> " + std::to_string(e.size()) + " entries"; });
  const std::string desc = "make_stts_entries" + brief(lst(l)) + " -> " + mc::hex(s.substr(0, 600));
  if (s.size() < 8 || s.size() != 8 + 8 * be(s, 4, 4)) return m.fail("stts:size", "entry count and bytes disagree", desc);
  std::vector<std::uint64_t> back;
  std::uint64_t prev = ~0ULL;
  for (std::size_t o = 8; o < s.size(); o += 8) {
    const std::uint64_t n = be(s, o, 4), v = be(s, o + 4, 4);
    if (n == 0) return m.fail("stts:empty-run", "a run without samples", desc);
    if (n > l.size()) return m.fail("stts:lossy", "a run longer than the list", desc);
    if (v == prev) return m.fail("stts:not-minimal", "adjacent runs of the same duration", desc);
    prev = v;
    back.insert(back.end(), n, v);
  }
  if (back != l) m.fail("stts:lossy", "expanded " + brief(lst(back)), desc);
  for (auto& x : e) {
    std::ostringstream os;
    os << x;
    if (os.str() != x.toString()) m.fail("stts:print", "an entry is streamed as " + os.str(), desc);
    if (e.size() > 20) break;
  }
}

static void stsc_case(mc::MC& m, const std::vector<std::uint64_t>& l) {
  if (!m.next()) return;
  std::vector<track::ChunkInfo> c;
  for (std::size_t i = 0; i < l.size(); ++i)
    c.push_back({.offset = 100 * i, .number_of_samples = static_cast<std::uint32_t>(l[i]), .initialized = true});
  std::vector<box::StscEntry> e;
  e.push_back(box::StscEntry({.first_chunk = 9, .samples_per_chunk = 9}));
  track::make_stsc_entries(&e, c);
  const std::string s = ser(box::Stsc({.entries = e}));
  m.trace();
  m.trans(l.size());
  m.state(mc::mix(1, mc::hash(lst(l))));
  m.outcome(mc::hash(s));
  m.sample([&] { return "samples per chunk " + brief(lst(l)) + " -> " + std::to_string(e.size()) + " entries"; });
  const std::string desc = "make_stsc_entries" + brief(lst(l)) + " -> " + mc::hex(s.substr(0, 600));
  if (s.size() < 8 || s.size() != 8 + 12 * be(s, 4, 4)) return m.fail("stsc:size", "entry count and bytes disagree", desc);
  std::vector<std::uint64_t> back;
  std::uint64_t prev = ~0ULL;
  for (std::size_t o = 8; o < s.size(); o += 12) {
    const std::uint64_t first = be(s, o, 4), v = be(s, o + 4, 4);
    if (be(s, o + 8, 4) != 1) return m.fail("stsc:description", "sample description index is not 1", desc);
    if (first != (o == 8 ? 1 : first) || first <= (o == 8 ? 0 : be(s, o - 12, 4)) || first > l.size())
      return m.fail("stsc:first-chunk", "first chunk numbers do not ascend from 1", desc);
    if (v == prev) return m.fail("stsc:not-minimal", "adjacent runs of the same count", desc);
    prev = v;
    const std::uint64_t next = o + 12 < s.size() ? be(s, o + 12, 4) : l.size() + 1;
    if (next > l.size() + 1) return m.fail("stsc:first-chunk", "first chunk number beyond the last chunk", desc);
    while (back.size() + 1 < next) back.push_back(v);
  }
  if (back != l) m.fail("stsc:lossy", "expanded " + brief(lst(back)), desc);
  for (auto& x : e) {
    std::ostringstream os;
    os << x;
    if (os.str() != x.toString()) m.fail("stsc:print", "an entry is streamed as " + os.str(), desc);
    if (e.size() > 20) break;
  }
}

static void offset_case(mc::MC& m, const std::vector<std::uint64_t>& l) {
  if (!m.next()) return;
  std::vector<track::ChunkInfo> c;
  bool big = false;
  for (auto o : l) {
    c.push_back({.offset = o, .number_of_samples = 1, .initialized = true});
    big |= o > 0xffffffffULL;
  }
  std::unique_ptr<Box> b(track::make_offset_box(c));
  const std::string s = ser(*b);
  m.trace();
  m.trans(l.size());
  m.state(mc::mix(2, mc::hash(lst(l))));
  m.outcome(mc::hash(s));
  m.sample([&] { return "offsets " + brief(lst(l)) + " -> " + b->getType().toString(); });
  const std::string desc = "make_offset_box" + brief(lst(l)) + " -> " + b->getType().toString() + " " + mc::hex(s.substr(0, 600));
  if (b->getType() != BoxType(big ? "co64" : "stco")) return m.fail("offset:form", "wrong table form", desc);
  const int w = big ? 8 : 4;
  if (s.size() != 8 + w * l.size() || be(s, 0, 4) != 0 || be(s, 4, 4) != l.size())
    return m.fail("offset:count", "not one entry per chunk", desc);
  for (std::size_t i = 0; i < l.size(); ++i)
    if (be(s, 8 + w * i, w) != l[i]) return m.fail("offset:value", "entry " + std::to_string(i) + " wrong", desc);
  if (l.size() < 20) {
    std::ostringstream os;
    if (auto* x = dynamic_cast<box::Co64*>(b.get())) os << *x;
    if (auto* x = dynamic_cast<box::Stco*>(b.get())) os << *x;
    if (os.str() != b->toString()) m.fail("offset:print", "the table is streamed as " + os.str(), desc);
  }
}

static void lists(const std::vector<std::uint64_t>& alpha, std::size_t maxlen,
                  const std::function<void(const std::vector<std::uint64_t>&)>& f) {
  for (std::size_t n = 0; n <= maxlen; ++n) {
    std::vector<std::uint64_t> l(n);
    mc::product(std::vector<std::size_t>(n, alpha.size()), [&](const std::vector<std::size_t>& d) {
      for (std::size_t i = 0; i < n; ++i) l[i] = alpha[d[i]];
      f(l);
    });
  }
}

static void run_p09(mc::MC& m) {
  const std::size_t T = m.thorough;
  lists({0, 1, 2, 0xffffffffULL}, 8 + T, [&](auto& l) { stts_case(m, l); });
  lists({0, 1, 2, 3}, 8 + T, [&](auto& l) { stsc_case(m, l); });
  lists({5, 6}, 14 + 2 * T, [&](auto& l) { stts_case(m, l); stsc_case(m, l); });
  lists({0x7fffffffULL, 0x80000000ULL, 0xffffffffULL}, 6 + T, [&](auto& l) { stts_case(m, l); stsc_case(m, l); });
  // long lists: every pair of run boundaries
  for (std::size_t n : T ? std::vector<std::size_t>{64, 255, 256, 257, 600} : std::vector<std::size_t>{64, 257})
    for (std::size_t a = 0; a <= n; a += (n > 100 ? 7 : 1))
      for (std::size_t b = a; b <= n; b += (n > 100 ? 5 : 1)) {
        std::vector<std::uint64_t> l(n, 10);
        for (std::size_t i = a; i < b; ++i) l[i] = 20;
        stts_case(m, l);
        stsc_case(m, l);
      }
  for (std::size_t n : {65535u, 65536u, 70000u}) {
    std::vector<std::uint64_t> l(n, 3);
    stts_case(m, l);
    stsc_case(m, l);
    l.back() = 4;
    stts_case(m, l);
    stsc_case(m, l);
  }
  // runs around every power of two: one run, an odd one out at either end or in the middle
  for (int sh = 9; sh <= (T ? 24 : 21); ++sh)
    for (int d : {-1, 0, 1}) {
      const std::size_t n = (std::size_t(1) << sh) + std::size_t(d);
      for (int w = 0; w < 4; ++w) {
        std::vector<std::uint64_t> l(n, 3);
        if (w) l[w == 1 ? 0 : w == 2 ? n / 2 : n - 1] = 4;
        stts_case(m, l);
        if (sh <= 22) stsc_case(m, l);
        m.beat();
      }
    }
  // as many runs as entries
  for (std::size_t n : {255u, 256u, 257u, 65535u, 65536u, 65537u, 200000u}) {
    std::vector<std::uint64_t> l(n);
    for (std::size_t i = 0; i < n; ++i) l[i] = 1 + i % 2;
    stts_case(m, l);
    stsc_case(m, l);
    for (std::size_t i = 0; i < n; ++i) l[i] = 1 + i;
    stts_case(m, l);
    stsc_case(m, l);
  }
  // chunk offsets ascend in file order
  const std::vector<std::uint64_t> oa = {0, 1, 24, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 1ULL << 40, (1ULL << 62)};
  std::vector<std::uint64_t> cur;
  std::function<void(std::size_t)> rec = [&](std::size_t from) {
    offset_case(m, cur);
    if (cur.size() == 5 + T) return;
    for (std::size_t i = from; i < oa.size(); ++i) {
      cur.push_back(oa[i]);
      rec(i);
      cur.pop_back();
    }
  };
  rec(0);
  for (std::size_t n : {255u, 256u, 257u, 1000u})
    for (std::size_t big = 0; big <= n; big += (big < 3 || n - big < 3) ? 1 : 50) {
      std::vector<std::uint64_t> l(n);
      for (std::size_t i = 0; i < n; ++i) l[i] = i < n - big ? 10 + i : 0xffffffffULL + 1 + i;
      offset_case(m, l);
    }
}

// ------------------------------------------------------------------ P10
namespace {
struct FieldBox : Box {  // a box whose own fields take any number of bytes
  std::uint64_t n;
  FieldBox(const std::string& t, std::uint64_t k) : n(k) { m_type = BoxType(t); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t getDataSize() const override { return n; }
  std::uint64_t writeData(std::ostream& os) const override {
    if (n <= 64) {
      for (std::uint64_t i = 0; i < n; ++i) os.put(static_cast<char>(0xf0 + i % 15));
    } else {
      os.put('\x5a');
      os.seekp(static_cast<std::streamoff>(n - 2), std::ios_base::cur);
      os.put('\xa5');
    }
    return n * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
};
}  // namespace

static void p10_case(mc::MC& m, const std::vector<int>& parent, const std::vector<std::uint64_t>& sz, std::uint64_t root_off) {
  if (!m.next()) return;
  const std::size_t n = parent.size();
  std::vector<std::uint64_t> off(n), tot(n), hs(n), content(n);
  std::vector<std::vector<std::size_t>> kids(n);
  for (std::size_t i = 1; i < n; ++i) kids[parent[i]].push_back(i);
  for (std::size_t i = n; i-- > 0;) {  // children have larger numbers than their parent
    content[i] = sz[i];
    for (auto k : kids[i]) content[i] += tot[k];
    hs[i] = content[i] + 8 > 0xffffffffULL ? 16 : 8;
    tot[i] = content[i] + hs[i];
  }
  std::function<void(std::size_t, std::uint64_t)> place = [&](std::size_t i, std::uint64_t o) {
    off[i] = o;
    o += hs[i] + sz[i];
    for (auto k : kids[i]) {
      place(k, o);
      o += tot[k];
    }
  };
  place(0, root_off);
  std::string desc = "root offset " + std::to_string(root_off) + ";";
  for (std::size_t i = 0; i < n; ++i) desc += " " + std::to_string(i) + ":parent " + std::to_string(parent[i]) + ",fields " + std::to_string(sz[i]);
  m.sample([&] { return desc; });

  std::vector<BoxInfo*> bi(n);
  std::vector<FieldBox*> bx(n);
  for (std::size_t i = 0; i < n; ++i) {
    char t[5];
    snprintf(t, 5, "b%03zu", i);
    bx[i] = new FieldBox(t, sz[i]);
    bi[i] = new BoxInfo({.parent = i ? bi[parent[i]] : nullptr, .box = bx[i]});
  }
  std::unique_ptr<BoxInfo> root(bi[0]);
  auto verify = [&](const char* when, std::uint64_t shift, std::uint64_t ret) {
    if (ret != tot[0]) m.fail("layout:returned-size", std::string(when) + ": returned " + std::to_string(ret), desc);
    for (std::size_t i = 0; i < n; ++i) {
      char t[160];
      snprintf(t, sizeof t, "[b%03zu] Offset=%llu Size=%llu", i, (unsigned long long)(off[i] + shift), (unsigned long long)tot[i]);
      if (bx[i]->toString() != t) {
        m.fail("layout:offset-or-size", std::string(when) + ": box is '" + bx[i]->toString() + "', expected '" + t + "'", desc);
        return;
      }
      if (bi[i]->getSize() != tot[i] || bx[i]->getHeaderSize() != hs[i]) {
        m.fail("layout:header-size", std::string(when) + ": header size " + std::to_string(bx[i]->getHeaderSize()), desc);
        return;
      }
    }
  };
  verify("first pass", 0, root->adjustOffsetAndSize(root_off));
  verify("repeated pass", 0, root->adjustOffsetAndSize(root_off));
  verify("pass at another offset", 77, root->adjustOffsetAndSize(root_off + 77));
  verify("pass back", 0, root->adjustOffsetAndSize(root_off));
  m.trans(4 * n);
  std::uint64_t h = mc::mix(root_off, n);
  for (std::size_t i = 0; i < n; ++i) {
    h = mc::mix(h, mc::mix(off[i], tot[i]));
    h = mc::mix(h, parent[i] + 1);
  }
  m.state(h);
  m.outcome(h);

  ut::SparseBuf want, got;
  for (std::size_t i = 0; i < n; ++i) {
    char t[5];
    snprintf(t, 5, "b%03zu", i);
    ut::Enc e;
    e.u32(hs[i] == 8 ? tot[i] : 1).str(t);
    if (hs[i] == 16) e.u64(tot[i]);
    want.pos = off[i];
    want.put(reinterpret_cast<const char*>(e.v.data()), e.v.size());
    std::ostream wos(&want);
    bx[i]->writeData(wos);
  }
  std::ostream os(&got);
  try {
    root->write(os);
    verify("after writing", 0, root->getSize());
  } catch (const std::exception& e) {
    m.fail("write:threw", e.what(), desc);
    return;
  }
  if (got.size != want.size || got.hash() != want.hash()) m.fail("write:bytes", "bytes written differ from the layout", desc);
  std::istream is(&got);
  for (std::size_t i = 0; i < n; ++i) {
    if (bi[i]->getBox() != bx[i] || bi[i]->getType() != bx[i]->getType() || bx[i]->getSize() != tot[i]) m.fail("tree:box", "a node gives another box", desc);
    try {
      bx[i]->seekToEnd(is);
      const bool e = static_cast<std::uint64_t>(is.tellg()) == off[i] + tot[i];
      bx[i]->seekToData(is);
      if (!e || static_cast<std::uint64_t>(is.tellg()) != off[i] + hs[i]) m.fail("seek", "seekToData or seekToEnd goes elsewhere", desc);
    } catch (const std::exception& e) {
      m.fail("seek:threw", e.what(), desc);
    }
  }
  m.trace();
}

struct Reg {
  const char* type;
  std::vector<std::uint8_t> versions;  // empty: any
  int full;                            // 1: carries version and flags
};
static std::vector<Reg> registry();

static void run_p10(mc::MC& m) {
  // all ordered trees with up to N nodes, as parent vectors in depth-first order
  std::map<int, std::vector<std::vector<int>>> trees;
  const int N = m.thorough ? 8 : 7;
  for (int n = 1; n <= N; ++n) {
    std::vector<int> p{-1};
    std::vector<int> path{0};
    std::function<void()> rec = [&] {
      if (static_cast<int>(p.size()) == n) {
        trees[n].push_back(p);
        return;
      }
      // the next node hangs under any node of the rightmost path
      std::vector<int> save = path;
      for (std::size_t k = 0; k < save.size(); ++k) {
        path.assign(save.begin(), save.begin() + k + 1);
        p.push_back(path.back());
        path.push_back(static_cast<int>(p.size()) - 1);
        rec();
        p.pop_back();
      }
      path = save;
    };
    rec();
  }
  // boxes that have no place yet
  BoxMap bm;
  register_box_map(&bm);
  for (auto& reg : registry()) {
    if (!m.next()) continue;
    for (int what = 0; what < 4; ++what) {
      std::unique_ptr<Box> b(bm.getBoxInstance(BoxType(std::string(reg.type))));
      std::stringstream ss("some data");
      bool refused = false;
      try {
        if (what == 0) b->getSize();
        if (what == 1) b->seekToData(ss);
        if (what == 2) b->seekToEnd(ss);
        if (what == 3) b->write(ss);
      } catch (const std::exception&) {
        refused = true;
      }
      m.trans();
      m.trace();
      m.state(mc::mix(mc::hash(reg.type), what));
      if (!refused) m.fail("unplaced", "a box that has no place yet was asked for it without an error", std::string(reg.type) + " call " + std::to_string(what));
    }
  }
  const std::uint64_t B = 0xffffffffULL - 8;  // largest content of the 32-bit form
  const std::vector<std::uint64_t> offs = {0, 24, 0xfffffff8ULL};
  const std::vector<std::uint64_t> small = {0, 3};
  const std::vector<std::uint64_t> wide = m.thorough ? std::vector<std::uint64_t>{0, 3, 0x80000000ULL, B - 16, B - 8, B - 3, B, B + 1}
                                                     : std::vector<std::uint64_t>{0, 0x80000000ULL, B - 16, B - 8, B, B + 1};
  for (int n = 1; n <= N; ++n)
    for (auto& p : trees[n]) {
      std::vector<std::uint64_t> s(n);
      if (n <= N)
        mc::product(std::vector<std::size_t>(n, small.size()), [&](auto& d) {
          for (int i = 0; i < n; ++i) s[i] = small[d[i]];
          p10_case(m, p, s, offs[(d[0] + n) % 3]);
        });
      if (n <= 4)
        mc::product(std::vector<std::size_t>(n, wide.size()), [&](auto& d) {
          for (int i = 0; i < n; ++i) s[i] = wide[d[i]];
          for (auto o : offs) p10_case(m, p, s, o);
        });
      // every node large enough to bring itself or one of its ancestors to the boundary
      for (int v = 0; v < n; ++v)
        for (int a = v;; a = p[a]) {
          for (std::uint64_t base : {0, 5}) {
            // content of a with v empty
            std::vector<std::uint64_t> c(n), t(n);
            for (int i = n; i-- > 0;) {
              c[i] = i == v ? 0 : base;
              for (int k = i + 1; k < n; ++k)
                if (p[k] == i) c[i] += t[k];
              t[i] = c[i] + 8;
            }
            for (std::int64_t dl : {-17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9}) {
              s.assign(n, base);
              s[v] = B + dl - c[a];
              p10_case(m, p, s, offs[(v + a) % 3]);
            }
          }
          if (a == 0) break;
        }
    }
  // wide and deep trees
  for (int n : {20, 100, 400}) {
    std::vector<int> chain(n), star(n);
    for (int i = 0; i < n; ++i) {
      chain[i] = i - 1;
      star[i] = i ? 0 : -1;
    }
    for (std::uint64_t f : {0, 3}) {
      if (n <= 100) p10_case(m, chain, std::vector<std::uint64_t>(n, f), 16);
      p10_case(m, star, std::vector<std::uint64_t>(n, f), 16);
    }
  }
  // each node of a chain of large boxes: many forms change in one pass
  for (int n = 2; n <= 12; ++n) {
    std::vector<int> chain(n);
    for (int i = 0; i < n; ++i) chain[i] = i - 1;
    for (int leaf = 0; leaf < 8 * n; ++leaf) {
      std::vector<std::uint64_t> s(n, 0);
      s[n - 1] = B - leaf;
      p10_case(m, chain, s, 0);
    }
  }
}

// ------------------------------------------------------------------ P11
static void run_p11(mc::MC& m) {
  const std::vector<std::string> types = {"moov", std::string("\0\0\0\0", 4), "\xa9too", "\xff\x80 z"};
  const std::vector<std::uint64_t> poss = {0, 1, 3, 7, 8, 9, 255, 256, 0x7fffffff, 0xfffffff7, 0xfffffff8, 0xfffffffc, 0xffffffff, 0x100000000, 1ULL << 40};
  const std::uint64_t maxr = m.thorough ? 40 : 26;
  std::vector<std::uint64_t> remains;
  for (std::uint64_t r = 0; r <= maxr; ++r) remains.push_back(r);
  for (std::uint64_t r : {0x7fffffffULL, 0x80000000ULL, 0xfffffff7ULL, 0xfffffff8ULL, 0xffffffffULL, 0x100000000ULL, 0x100000007ULL, 0x100000008ULL, 0x10000000fULL, 0x100000010ULL,
                          0x1ffffffffULL, 0x200000000ULL, 1ULL << 40, (1ULL << 62) + 16})
    remains.push_back(r);
  for (auto pos : poss)
    for (auto r : remains)
      for (auto& type : types) {
        std::set<std::uint64_t> s32 = {0, 1, 2, 7, 8, 9, 15, 16, 17, r, r + 1, r ? r - 1 : 0, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304};
        while (*s32.rbegin() > 0xffffffff) s32.erase(--s32.end());
        std::set<std::uint64_t> s64 = {0, 1, 7, 8, 15, 16, 17, r, r + 1, 0xffffffff, 0x100000000, 0x0102030405060708, 0x7fffffffffffffff, 0x8000000000000000, ~0ULL};
        for (auto a : s32)
          for (auto b : a == 1 ? s64 : std::set<std::uint64_t>{0x1122334455667788}) {
            if (!m.next()) continue;
            ut::Enc e;
            e.u32(a).str(type).u64(b);
            while (e.v.size() < std::min(r, maxr)) e.u8(0xee);
            e.v.resize(std::min(r, maxr));
            std::string desc = "position " + std::to_string(pos) + ", remaining bytes " + mc::hex(e.v) + (r > maxr ? "... (" + std::to_string(r) + " in all)" : "");
            m.sample([&] { return desc; });
            m.trans(3);
            m.state(mc::mix(mc::mix(pos, r), mc::mix(a, b)) ^ mc::hash(type));
            m.trace();
            // small positions also as an ordinary string stream
            for (int kind = 0; kind < 2; ++kind) {
              ut::SparseBuf sp;
              sp.pos = pos;
              sp.put(reinterpret_cast<const char*>(e.v.data()), e.v.size());
              sp.size = pos + r;
              std::stringbuf sb;
              if (kind == 1) {
                if (pos > 1000 || r > maxr) break;
                sb.str(std::string(pos, '\x77') + ut::str(e.v));
              }
              std::iostream is(kind ? static_cast<std::streambuf*>(&sb) : &sp);
              is.seekg(static_cast<std::streamoff>(pos));
              if (!is.good()) continue;  // an empty string stream has no position
              const bool ok = r >= 8 && (a != 1 || r >= 16);
              std::unique_ptr<BoxHeader> h;
              try {
                h.reset(read_box_header(is));
              } catch (const std::exception& x) {
                if (ok) m.fail("read:refused", std::string("a complete header was refused: ") + x.what(), desc);
                m.outcome(0);
                continue;
              }
              if (!ok) {
                m.fail("read:accepted", "a header that does not fit was accepted", desc);
                continue;
              }
              const std::uint64_t hs = a == 1 ? 16 : 8, size = a == 1 ? b : a == 0 ? r : a;
              m.outcome(mc::mix(size, hs));
              if (h->getOffset() != pos || h->getSize() != size || h->getHeaderSize() != hs || h->getDataSize() != size - hs ||
                  h->getType() != BoxType(std::array<std::uint8_t, 4>{(std::uint8_t)type[0], (std::uint8_t)type[1], (std::uint8_t)type[2], (std::uint8_t)type[3]})) {
                m.fail("read:fields", "offset " + std::to_string(h->getOffset()) + " size " + std::to_string(h->getSize()) + " header size " + std::to_string(h->getHeaderSize()), desc);
                continue;
              }
              if (!is.good()) {
                m.fail("read:stream-state", "the stream is left in an error state", desc);
                continue;
              }
              try {
                h->seekToData(is);
                if (static_cast<std::uint64_t>(is.tellg()) != pos + hs) m.fail("seek:data", "seekToData goes elsewhere", desc);
                if (size <= r) {
                  h->seekToEnd(is);
                  if (static_cast<std::uint64_t>(is.tellg()) != pos + size) m.fail("seek:end", "seekToEnd goes elsewhere", desc);
                }
              } catch (const std::exception& x) {
                m.fail("seek:threw", x.what(), desc);
                continue;
              }
              ut::SparseBuf out;
              std::ostream os(&out);
              try {
                const std::uint64_t ret = h->write(os);
                if (ret != size || h->getSize() != size || h->getHeaderSize() != hs) m.fail("write:fields", "writing changed the header", desc);
                if (out.size != pos + hs || out.str(pos, hs) != ut::str(e.v).substr(0, hs)) m.fail("write:bytes", "wrote " + mc::hex(out.str(pos, hs)), desc);
              } catch (const std::exception& x) {
                m.fail("write:threw", x.what(), desc);
              }
            }
          }
      }
  // headers made from a content size
  for (std::uint64_t c : {0ULL, 1ULL, 0x7fffffffULL, 0xffffffefULL, 0xfffffff0ULL, 0xfffffff6ULL, 0xfffffff7ULL, 0xfffffff8ULL, 0xffffffffULL, 0x100000000ULL, 1ULL << 62})
    for (auto pos : poss) {
      if (!m.next()) continue;
      BoxHeader h({.type = BoxType("mdat")});
      for (int round = 0; round < 2; ++round) {
        h.setOffsetAndDataSize(pos, c);
        const std::uint64_t hs = c + 8 > 0xffffffffULL ? 16 : 8;
        const std::string desc = "setOffsetAndDataSize(" + std::to_string(pos) + ", " + std::to_string(c) + ")";
        m.trans();
        m.trace();
        m.state(mc::mix(mc::mix(c, pos), 9));
        ut::SparseBuf out;
        std::ostream os(&out);
        h.write(os);
        ut::Enc e;
        e.u32(hs == 16 ? 1 : c + 8).str("mdat");
        if (hs == 16) e.u64(c + 16);
        if (h.getHeaderSize() != hs || h.getSize() != c + hs || h.getDataSize() != c || h.getOffset() != pos) m.fail("set:fields", "wrong size fields", desc);
        if (out.size != pos + hs || out.str(pos, hs) != ut::str(e.v)) m.fail("set:bytes", "wrote " + mc::hex(out.str(pos, 16)), desc);
        // through the other form and back
        h.setOffsetAndDataSize(3, hs == 8 ? 1ULL << 33 : 5);
      }
    }
}

// ------------------------------------------------------------------ P25
static void run_p25(mc::MC& m) {
  const std::uint64_t K = 2082844800ULL;  // 66 years with 17 leap days
  const std::uint64_t last = K + 0xffffffffULL;
  auto one = [&](std::uint64_t t, const ut::Date& d, std::uint64_t sec) {
    m.trans();
    char w[64];
    snprintf(w, sizeof w, "%04d-%02d-%02dT%02d:%02d:%02dZ", d.y, d.m, d.d, int(sec / 3600), int(sec / 60 % 60), int(sec % 60));
    const std::string got = time::format_epoch_19040101(t);
    m.outcome(mc::hash(got));
    if (got != w) m.fail("format", "printed '" + got + "', expected '" + w + "'", "t=" + std::to_string(t));
  };
  std::vector<std::uint64_t> secs = {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399};
  const std::uint64_t days = last / 86400;
  for (std::uint64_t d = 0; d <= days; ++d) {
    if (!m.next()) continue;
    const auto date = ut::civil(static_cast<std::int64_t>(d) - 24107);
    m.state(d);
    m.trace();
    for (auto s : secs)
      if (d * 86400 + s <= last) one(d * 86400 + s, date, s);
    m.sample([&] { return "day " + std::to_string(d) + " = " + time::format_epoch_19040101(d * 86400); });
  }
  // whole days, second by second
  for (std::uint64_t d : m.thorough ? std::vector<std::uint64_t>{0, 1, 59, 1000, 24106, 24107, 24108, 35245, 43890, 60000, 73816, days}
                                    : std::vector<std::uint64_t>{0, 24106, 24107, days})
    for (std::uint64_t h = 0; h < 24; ++h) {
      if (!m.next()) continue;
      const auto date = ut::civil(static_cast<std::int64_t>(d) - 24107);
      m.trace();
      for (std::uint64_t s = h * 3600; s < (h + 1) * 3600; ++s)
        if (d * 86400 + s <= last) one(d * 86400 + s, date, s);
    }
  // everything above prints the documented text
  std::set<std::uint64_t> big;
  for (int b = 0; b < 64; ++b)
    for (std::int64_t dl = -3; dl <= 3; ++dl) {
      big.insert((1ULL << b) + dl);
      big.insert((1ULL << b) + K + dl);
      big.insert((1ULL << b) - K + dl);
      big.insert(~0ULL - (1ULL << b) + dl);
    }
  for (std::int64_t dl = -5; dl <= 5; ++dl) {
    big.insert(last + dl);
    big.insert((1ULL << 63) + dl);
    big.insert((1ULL << 63) + K + dl);
    big.insert(67768036191676799ULL + K + dl);  // last second of year 2^31 - 1
    big.insert(~0ULL - 67768040609740799ULL + K + dl);
  }
  for (auto t : big) {
    if (!m.next()) continue;
    m.phase("printing a large value");
    m.trace();
    m.state(t);
    if (t <= last) {
      one(t, ut::civil(static_cast<std::int64_t>(t / 86400) - 24107), t % 86400);
    } else {
      m.trans();
      const std::string got = time::format_epoch_19040101(t);
      if (got != "0000-00-00T00:00:00Z") m.fail("format:big", "printed '" + got + "'", "t=" + std::to_string(t));
    }
    const std::uint64_t c = time::convert_to_epoch_19040101(t);
    if (c != t + K) m.fail("convert", "converted to " + std::to_string(c), "t=" + std::to_string(t));
  }
}

// ------------------------------------------------------------------ registry table (from the documentation of the library's box list)
static std::vector<Reg> registry() {
  std::vector<Reg> r = {
      {"btrt", {}, 0}, {"co64", {0}, 1}, {"colr", {}, 0}, {"ctts", {0, 1}, 1}, {"data", {}, 0}, {"dinf", {}, 0}, {"dOps", {}, 0},
      {"dref", {0}, 1}, {"edts", {}, 0}, {"elst", {0, 1}, 1}, {"emsg", {0, 1}, 1}, {"esds", {0}, 1}, {"fiel", {}, 0}, {"free", {}, 0},
      {"ftyp", {}, 0}, {"hdlr", {0}, 1}, {"ilst", {}, 0}, {"iods", {0}, 1}, {"mdat", {}, 0}, {"mdhd", {0, 1}, 1}, {"mdia", {}, 0},
      {"mehd", {0, 1}, 1}, {"meta", {0}, 1}, {"mfhd", {0}, 1}, {"mfra", {}, 0}, {"mfro", {0}, 1}, {"minf", {}, 0}, {"moof", {}, 0},
      {"moov", {}, 0}, {"mvex", {}, 0}, {"mvhd", {0, 1}, 1}, {"pssh", {0, 1}, 1}, {"sbgp", {0, 1}, 1}, {"schi", {}, 0}, {"sdtp", {0}, 1},
      {"sgpd", {1, 2}, 1}, {"sidx", {0, 1}, 1}, {"sinf", {}, 0}, {"skip", {}, 0}, {"smhd", {0}, 1}, {"stbl", {}, 0}, {"stco", {}, 1},
      {"stsc", {0}, 1}, {"stsd", {0}, 1}, {"stss", {0}, 1}, {"stsz", {0}, 1}, {"stts", {0}, 1}, {"styp", {}, 0}, {"tfdt", {0, 1}, 1},
      {"tfhd", {0}, 1}, {"tfra", {0, 1}, 1}, {"tkhd", {0, 1}, 1}, {"traf", {}, 0}, {"trak", {}, 0}, {"trex", {0}, 1}, {"trun", {0, 1}, 1},
      {"udta", {}, 0}, {"vmhd", {0}, 1}, {"url ", {0}, 1}, {"urn ", {0}, 1}, {"wave", {0}, 0}, {"avc1", {0}, 0}, {"encv", {0}, 0},
      {"vp08", {0}, 0}, {"vp09", {0}, 0}, {"vp10", {0}, 0}, {"av01", {0}, 0}, {"mp4a", {0}, 0}, {"enca", {0}, 0}, {"Opus", {0}, 0},
      {"avcC", {0}, 0}, {"vpcC", {1, 0}, 1}, {"av1C", {}, 0}, {"pasp", {0}, 0}};
  for (const char* t : {"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk", "egid", "geID",
                        "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID", "soaa", "soal", "soar", "soco", "sonm", "sosn",
                        "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn", "\xa9" "ART", "\xa9" "alb", "\xa9" "cmt", "\xa9" "com",
                        "\xa9" "day", "\xa9" "gen", "\xa9" "grp", "\xa9" "nam", "\xa9" "too", "\xa9" "wrt"})
    r.push_back({t, {}, 0});
  return r;
}

// ------------------------------------------------------------------ P26
struct FlagModel {
  std::uint8_t ver = 0;
  std::uint32_t flags = 0;
  std::uint64_t key() const { return (std::uint64_t(ver) << 32) | flags; }
};
struct FlagOp {
  int kind;  // 0 set, 1 add, 2 remove, 3 version
  std::uint32_t arg;
  std::string str() const {
    static const char* n[] = {"setFlags", "addFlag", "removeFlag", "setVersion"};
    char b[40];
    snprintf(b, sizeof b, "%s(0x%x)", n[kind], arg);
    return b;
  }
};
static void apply(FlagModel& x, const FlagOp& o) {
  if (o.kind == 0) x.flags = o.arg;
  if (o.kind == 1) x.flags |= o.arg;
  if (o.kind == 2) x.flags &= ~o.arg;
  if (o.kind == 3) x.ver = static_cast<std::uint8_t>(o.arg);
}
static void apply(Box& b, const FlagOp& o) {
  if (o.kind == 0) b.setFlags(o.arg);
  if (o.kind == 1) b.addFlag(o.arg);
  if (o.kind == 2) b.removeFlag(o.arg);
  if (o.kind == 3) b.setVersion(static_cast<std::uint8_t>(o.arg));
}

namespace {
struct PlainFull : FullBox {  // the algebra alone, independent of any box's own fields
  std::string toStringOnlyData() const override { return getVersionAndFlagsString(); }
  std::uint64_t writeData(std::ostream&) const override { return 0; }
  std::uint64_t readData(std::istream&) override { return 0; }
};
}  // namespace

static void run_p26(mc::MC& m) {
  BoxMap bm;
  register_box_map(&bm);
  const std::vector<std::uint32_t> masks = {0, 1, 2, 3, 0x80, 0x100, 0x8000, 0x10000, 0x800000, 0xffffff};
  std::vector<FlagOp> ops;
  for (int k = 0; k < 3; ++k)
    for (auto a : masks) ops.push_back({k, a});
  for (std::uint32_t v : {0, 1, 2, 255}) ops.push_back({3, v});
  auto path_str = [](const std::vector<FlagOp>& p) {
    std::string s;
    for (auto& o : p) s += (s.empty() ? "" : "; ") + o.str();
    return s;
  };
  auto check = [&](Box& b, const FlagModel& x, const std::vector<FlagOp>& path, const std::string& what) {
    if (b.getFlags() != x.flags || b.getVersion() != x.ver) {
      char t[120];
      snprintf(t, sizeof t, "version %d flags 0x%06x, expected version %d flags 0x%06x", b.getVersion(), b.getFlags(), x.ver, x.flags);
      m.fail("algebra", t, what + ": " + path_str(path));
      return false;
    }
    for (auto a : masks)
      if (b.checkFlag(a) != ((x.flags & a) != 0)) {
        m.fail("check", "checkFlag(" + std::to_string(a) + ") is wrong", what + ": " + path_str(path));
        return false;
      }
    return true;
  };
  // 1. the reachable state space: every reachable (version, flags), every operation from it
  {
    std::map<std::uint64_t, std::vector<FlagOp>> seen;
    std::deque<FlagModel> todo;
    seen[0] = {};
    todo.push_back({});
    while (!todo.empty()) {
      FlagModel x = todo.front();
      todo.pop_front();
      const auto path = seen[x.key()];
      const bool mine = m.next();
      if (mine) m.state(x.key());
      for (auto& o : ops) {
        FlagModel y = x;
        apply(y, o);
        if (!seen.count(y.key())) {
          seen[y.key()] = path;
          seen[y.key()].push_back(o);
          todo.push_back(y);
        }
        if (!mine) continue;
        PlainFull b;
        for (auto& q : path) apply(b, q);
        apply(b, o);
        auto p2 = path;
        p2.push_back(o);
        m.trans();
        m.trace();
        m.outcome(y.key());
        check(b, y, p2, "version and flags");
        // serialisation
        std::ostringstream os;
        bitio::Writer w(os);
        b.writeVersionAndFlag(&w);
        ut::Enc e;
        e.full(y.ver, y.flags);
        if (os.str() != ut::str(e.v)) m.fail("store", "stored as " + mc::hex(os.str()), path_str(p2));
        std::istringstream is(os.str());
        bitio::Reader r(is);
        PlainFull c;
        c.setFlags(0x123456);
        c.setVersion(7);
        c.readVersionAndFlag(&r);
        check(c, y, p2, "read back");
      }
      if (mine) m.sample([&] { return "state reached by " + path_str(path); });
    }
  }
  // 2. all operation sequences up to a depth on one box (no hidden state)
  {
    const std::vector<FlagOp> few = {{0, 0x3}, {0, 0x800001}, {1, 0x1}, {1, 0x102}, {2, 0x1}, {2, 0x803}, {2, 0xffffff}, {3, 1}, {3, 255}};
    const std::size_t depth = m.thorough ? 6 : 5;
    for (std::size_t n = 1; n <= depth; ++n)
      mc::product(std::vector<std::size_t>(n, few.size()), [&](auto& d) {
        if (!m.next()) return;
        PlainFull b;
        FlagModel x;
        std::vector<FlagOp> path;
        for (auto i : d) {
          apply(b, few[i]);
          apply(x, few[i]);
          path.push_back(few[i]);
          m.trans();
          if (!check(b, x, path, "sequence")) break;
        }
        m.state(x.key());
        m.trace();
      });
  }
  // 3. every registered box kind
  const std::vector<std::vector<FlagOp>> seqs = {
      {}, {{1, 0x1}}, {{0, 0x123456}}, {{1, 0x800001}, {2, 0x1}}, {{2, 0x4}}, {{0, 0xffffff}, {2, 0x00ff00}, {1, 0x8000}}, {{0, 0x10}, {0, 0x20}}};
  for (auto& reg : registry()) {
    const BoxType type{std::string(reg.type)};
    auto versions = reg.versions;
    if (versions.empty()) versions = {0};
    for (auto v : versions)
      for (auto& seq : seqs) {
        if (!m.next()) continue;
        std::unique_ptr<Box> b(bm.getBoxInstance(type));
        const std::string what = std::string("box ") + type.toString();
        if (!reg.full) {
          auto try_ser = [](const Box& x) {
            try {
              return ser(x);
            } catch (const std::exception& e) {
              return std::string("exception: ") + e.what();
            }
          };
          const std::string s0 = try_ser(*b);
          std::vector<FlagOp> path = seq;
          path.push_back({3, 1});
          auto tests = [&] {
            std::string t;
            for (std::uint32_t f : {0x0u, 0x1u, 0x2u, 0x800000u, 0xffffffu}) t += b->checkFlag(f) ? '1' : '0';
            return t;
          };
          const std::string t0 = tests();
          for (auto& o : path) {
            apply(*b, o);
            if (tests() != t0) m.fail("no-flags-test:" + type.toString(), "testing its flags changed although it carries none", what + ": " + path_str(path));
          }
          m.trans(path.size());
          m.trace();
          if (b->getFlags() != 0 || b->getVersion() != 0) m.fail("no-flags:" + type.toString(), "keeps version or flags although it carries none", what + ": " + path_str(path));
          if (try_ser(*b) != s0) m.fail("no-flags-bytes:" + type.toString(), "its bytes changed", what + ": " + path_str(path));
          continue;
        }
        FlagModel x;
        x.flags = b->getFlags();
        x.ver = b->getVersion();
        std::vector<FlagOp> path{{3, v}};
        path.insert(path.end(), seq.begin(), seq.end());
        for (auto& o : path) {
          apply(*b, o);
          apply(x, o);
        }
        m.trans(path.size());
        m.trace();
        m.state(mc::mix(mc::hash(reg.type), x.key()));
        if (!check(*b, x, path, what)) continue;
        std::string s;
        try {
          s = ser(*b);
        } catch (const std::exception&) {
          continue;  // a box without content may have nothing to write
        }
        ut::Enc e;
        e.full(x.ver, x.flags);
        if (s.substr(0, 4) != ut::str(e.v)) m.fail("store:" + type.toString(), "data starts with " + mc::hex(s.substr(0, 4)), what + ": " + path_str(path));
        std::unique_ptr<Box> c(bm.getBoxInstance(type));
        std::istringstream is(s);
        try {
          c->readData(is);
        } catch (const std::exception&) {
          m.count("not readable without content");
          continue;
        }
        if (type == BoxType("meta") && (x.flags != 0 || x.ver != 0)) continue;  // always read as version 0, flags 0
        check(*c, x, path, what + " read back");
      }
  }
}

// ------------------------------------------------------------------ P27
static Box* mk_a() { return new box::Free(); }
static Box* mk_b() { return new box::Skip(); }
static Box* mk_c() { return new box::VisualSampleEntry(); }

static void run_p27(mc::MC& m) {
  const std::vector<std::uint8_t> al = {0x00, 0x1f, 0x20, 0x2d, 0x30, 0x41, 0x61, 0x78, 0x7e, 0x7f, 0x80, 0xa8, 0xa9, 0xaa, 0xc2, 0xff};
  // codes; distinctness is judged inside blocks that share the first two bytes and through the text's structure
  std::map<std::string, std::uint32_t> seen;
  mc::product({al.size(), al.size()}, [&](auto& d) {
    if (!m.next()) return;
    mc::product({al.size(), al.size()}, [&](auto& g) {
      const std::array<std::uint8_t, 4> c{al[d[0]], al[d[1]], al[g[0]], al[g[1]]};
      const BoxType t(c);
      std::string want;
      bool pr = true;
      for (auto x : c) {
        pr &= (x >= 0x20 && x <= 0x7e) || x == 0xa9;
        want += x == 0xa9 ? std::string("\xc2\xa9") : std::string(1, static_cast<char>(x));
      }
      if (!pr) {
        char b[16];
        snprintf(b, sizeof b, "0x%02x%02x%02x%02x", c[0], c[1], c[2], c[3]);
        want = b;
      }
      const std::string got = t.toString();
      m.trans();
      m.trace();
      m.state(mc::hash(std::string(c.begin(), c.end())));
      m.outcome(mc::hash(got));
      m.sample([&] { return "code " + mc::hex(std::string(c.begin(), c.end())) + " prints " + got; });
      const std::string desc = "code " + mc::hex(std::string(c.begin(), c.end()));
      if (got != want) m.fail("print", "prints '" + got + "'", desc);
      const std::uint32_t v = (c[0] << 24) | (c[1] << 16) | (c[2] << 8) | c[3];
      auto it = seen.emplace(got, v).first;
      if (it->second != v) m.fail("print:collision", "prints the same as another code", desc);
      if (t.getData() != c) m.fail("data", "getData differs", desc);
      const BoxType s(std::string(c.begin(), c.end()));
      BoxType u;
      u.setData(c[0], c[1], c[2], c[3]);
      if (s.getData() != c || u.getData() != c || !(s == t) || !(u == t)) m.fail("construct", "the ways to construct disagree", desc);
      for (int i = 0; i < 4; ++i)
        for (auto x : al) {
          auto k = c;
          k[i] = x;
          const BoxType o(k);
          const bool same = k == c;
          const bool any = k == std::array<std::uint8_t, 4>{} || c == std::array<std::uint8_t, 4>{};
          if ((o == t) != same) m.fail("equal", "equality is wrong", desc);
          if ((o < t) != (k < c)) m.fail("order", "order is wrong", desc);
          if (t.matchWith(o) != (same || any) || o.matchWith(t) != (same || any)) m.fail("match", "matchWith is wrong", desc + " with " + mc::hex(std::string(k.begin(), k.end())));
        }
    });
  });
  if (m.next()) {
    m.trace();
    if (box_type_any().getData() != std::array<std::uint8_t, 4>{}) m.fail("any", "the wildcard is not all zero", "box_type_any()");
    for (std::size_t n = 0; n <= 40; ++n) {
      m.trans();
      bool threw = false;
      try {
        BoxType t(std::string(n, 'a'));
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      if (threw != (n != 4)) m.fail("length", threw ? "four bytes refused" : "wrong length accepted", "length " + std::to_string(n));
    }
  }
  // every registered code
  BoxMap bm;
  register_box_map(&bm);
  std::set<std::array<std::uint8_t, 4>> known;
  for (auto& reg : registry()) {
    const BoxType t{std::string(reg.type)};
    known.insert(t.getData());
    if (!m.next()) continue;
    m.trace();
    m.state(mc::mix(5, mc::hash(reg.type)));
    const std::string desc = "registered code " + t.toString();
    if (!bm.isSupported(t)) {
      m.fail("registered:" + t.toString(), "is not supported", desc);
      continue;
    }
    std::unique_ptr<Box> b(bm.getBoxInstance(t));
    std::unique_ptr<Box> b2(bm.getBoxInstance(new BoxHeader({.offset = 3, .size = 8, .type = t})));
    m.trans(2 + 256);
    if (b->getType() != t || b2->getType() != t) m.fail("registered:" + t.toString(), "gives a box of code " + b->getType().toString(), desc);
    if (b2->toString().find("[" + t.toString() + "] Offset=3 Size=8") != 0) m.fail("registered-header:" + t.toString(), "header is not kept: " + b2->toString(), desc);
    if (dynamic_cast<box::Unsupported*>(b.get())) m.fail("registered:" + t.toString(), "gives an opaque box", desc);
    if ((dynamic_cast<FullBox*>(b.get()) != nullptr) != (reg.full != 0)) m.fail("registered:" + t.toString(), "is of another kind", desc);
    auto vs = bm.getSupportedVersions(t);
    if (std::set<std::uint8_t>(vs.begin(), vs.end()) != std::set<std::uint8_t>(reg.versions.begin(), reg.versions.end()))
      m.fail("versions:" + t.toString(), "supports other versions", desc);
    for (int v = 0; v < 256; ++v) {
      const bool want = reg.versions.empty() || std::count(reg.versions.begin(), reg.versions.end(), v);
      if (bm.isSupportedVersion(t, static_cast<std::uint8_t>(v)) != want) m.fail("version:" + t.toString(), "version " + std::to_string(v), desc);
    }
    m.outcome(mc::hash(b->getType().toString()));
  }
  // codes near registered ones, and all alphabet codes: opaque, content kept
  std::set<std::array<std::uint8_t, 4>> unknown;
  for (auto& k : known)
    for (int i = 0; i < 4; ++i)
      for (int x : {0x00, 0x20, 0x61, 0xa9, k[i] ^ 0x20, k[i] ^ 1}) {
        auto c = k;
        c[i] = static_cast<std::uint8_t>(x);
        if (!known.count(c)) unknown.insert(c);
      }
  for (auto& c : unknown) {
    if (!m.next()) continue;
    const BoxType t(c);
    m.trace();
    m.state(mc::mix(6, mc::hash(std::string(c.begin(), c.end()))));
    const std::string desc = "unregistered code " + t.toString();
    if (bm.isSupported(t) || bm.isSupportedVersion(t, 0)) m.fail("unknown:supported", "is reported as supported", desc);
    bool threw = false;
    try {
      bm.getSupportedVersions(t);
    } catch (const std::exception&) {
      threw = true;
    }
    if (!threw) m.fail("unknown:versions", "has supported versions", desc);
    for (std::size_t n : {0, 1, 5, 300}) {
      Bytes d(n);
      for (std::size_t i = 0; i < n; ++i) d[i] = static_cast<std::uint8_t>(i * 7 + 200);
      std::unique_ptr<Box> b(bm.getBoxInstance(new BoxHeader({.offset = 0, .size = 8 + n, .type = t})));
      m.trans();
      std::istringstream is(ut::str(d));
      const std::uint64_t bits = b->readData(is);
      std::ostringstream os;
      b->write(os);
      ut::Enc e;
      e.u32(8 + n).bytes(c).bytes(d);
      if (bits != 8 * n || b->getDataSize() != n || os.str() != ut::str(e.v)) m.fail("unknown:content", "content is not kept: " + mc::hex(os.str()), desc + " with " + std::to_string(n) + " bytes");
    }
  }
  // registration histories
  const std::vector<BoxType> types = {BoxType("aaaa"), BoxType("bbbb"), BoxType("avc1")};
  const std::vector<Box* (*)()> facs = {mk_a, mk_b, mk_c};
  const std::vector<std::vector<std::uint8_t>> vers = {{}, {0}, {1, 3}, {255, 0}};
  const std::size_t K = types.size() * facs.size() * vers.size();
  for (std::size_t n = 0; n <= (m.thorough ? 4u : 3u); ++n)
    mc::product(std::vector<std::size_t>(n, K), [&](auto& d) {
      if (!m.next()) return;
      BoxMap r;
      std::map<std::size_t, std::pair<std::size_t, std::size_t>> model;
      std::string desc;
      std::uint64_t h = 7;
      for (auto i : d) {
        const std::size_t t = i % 3, f = i / 3 % 3, v = i / 9;
        r.addBoxDef(facs[f], types[t], vers[v]);
        model[t] = {f, v};
        desc += types[t].toString() + ":factory" + std::to_string(f) + ":versions" + std::to_string(v) + " ";
      }
      for (auto& [t, fv] : model) h = mc::mix(h, t * 100 + fv.first * 10 + fv.second);
      m.state(h);
      m.trans(n + 1);
      m.trace();
      m.sample([&] { return "registrations " + desc; });
      for (std::size_t t = 0; t < 3; ++t) {
        std::unique_ptr<Box> b(r.getBoxInstance(types[t]));
        auto it = model.find(t);
        if (it == model.end()) {
          if (r.isSupported(types[t]) || r.isSupportedVersion(types[t], 0) || !dynamic_cast<box::Unsupported*>(b.get()))
            m.fail("history:unregistered", "an unregistered code is supported", desc);
          continue;
        }
        const auto [f, v] = it->second;
        const bool kind = f == 0 ? dynamic_cast<box::Free*>(b.get()) != nullptr : f == 1 ? dynamic_cast<box::Skip*>(b.get()) != nullptr : dynamic_cast<box::VisualSampleEntry*>(b.get()) != nullptr;
        if (!r.isSupported(types[t]) || !kind) m.fail("history:factory", "lookup does not give the last registered kind", desc);
        if (f == 2 && b->getType() != types[t]) m.fail("history:any-type", "an any-type box does not get the code looked up", desc);
        if (r.getSupportedVersions(types[t]) != vers[v]) m.fail("history:versions", "versions are not those of the last registration", desc);
        for (int x : {0, 1, 2, 3, 254, 255})
          if (r.isSupportedVersion(types[t], static_cast<std::uint8_t>(x)) != (vers[v].empty() || std::count(vers[v].begin(), vers[v].end(), x)))
            m.fail("history:version", "version " + std::to_string(x), desc);
      }
    });
}

// ------------------------------------------------------------------ P37
struct Cmp {
  bool eq, ne, lt, gt, le, ge;
};
template <class A>
static Cmp compare(const A& a, const A& b, bool ordered) {
  Cmp c{a == b, a != b, false, false, false, false};
  if constexpr (requires { a < b; })
    if (ordered) c.lt = a < b, c.gt = a > b, c.le = a <= b, c.ge = a >= b;
  return c;
}

// every pair of values, each made twice: equal exactly when all fields are, and in one order
template <class F>
static void comparisons(mc::MC& m, const std::string& name, const std::vector<std::vector<std::uint64_t>>& keys, bool ordered, F&& cmp) {
  const std::size_t n = keys.size();
  std::vector<std::size_t> rank(n, 0);
  if (ordered)
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) rank[i] += cmp(j, i).lt;
  m.beat();
  for (std::size_t i = 0; i < n; ++i) {
    if (!m.next()) continue;
    m.trace();
    m.state(mc::hash(name, i));
    m.sample([&] { return name + lst(keys[i]) + " against " + std::to_string(n) + " values"; });
    std::size_t equal = 0;
    for (std::size_t j = 0; j < n; ++j) {
      const Cmp c = cmp(i, j);
      const bool same = keys[i] == keys[j];
      const std::string desc = name + " " + lst(keys[i]) + " and " + lst(keys[j]);
      m.trans();
      equal += c.eq;
      if (c.eq != same || c.ne == same) m.fail(name + ":equal", c.eq ? "taken for equal" : "taken for different", desc);
      if (!ordered) continue;
      if (c.lt + c.gt + c.eq != 1 || c.le != (c.lt || c.eq) || c.ge != (c.gt || c.eq)) m.fail(name + ":order", "not exactly one of less, equal and greater", desc);
      if (c.lt != (rank[i] < rank[j])) m.fail(name + ":total", "the values cannot be put in an order that agrees with this comparison", desc);
    }
    m.outcome(mc::hash(name + std::to_string(equal), rank[i]));
    m.eval(equal != n);
  }
}

template <class T, class M>
static void comparisons_of(mc::MC& m, const std::string& name, const std::vector<std::vector<std::uint64_t>>& keys, bool ordered, M&& make) {
  std::deque<T> a, b;
  for (auto& k : keys) a.push_back(make(k)), b.push_back(make(k));
  comparisons(m, name, keys, ordered, [&](std::size_t i, std::size_t j) { return compare<T>(a[i], b[j], ordered); });
  // what is copied, assigned or written and read back is equal
  for (std::size_t i = 0; i < keys.size(); ++i) {
    if (!m.next()) continue;
    m.trace();
    m.trans(3);
    m.state(mc::hash(name + " copied", i));
    const std::string desc = name + " " + lst(keys[i]);
    const T c(a[i]);
    if (!(c == b[i])) m.fail(name + ":copy", "a copy is not equal", desc);
    T d(a[(i + 1) % a.size()]);
    d = a[i];
    if (!(d == b[i])) m.fail(name + ":assign", "what it was assigned to is not equal", desc);
    if constexpr (requires(T x, bitio::Reader* r) { x.readData(r); }) {
      std::stringstream ss;
      bitio::Writer w(ss);
      a[i].writeData(&w);
      bitio::Reader r(ss);
      T e(a[(i + 1) % a.size()]);
      e.readData(&r);
      if (!(e == b[i])) m.fail(name + ":read", "what was written and read back is not equal", desc);
    } else if constexpr (std::is_base_of_v<Box, T>) {
      std::istringstream is(ser(a[i]));
      T e(a[(i + 1) % a.size()]);
      e.readData(is);
      if (!(e == b[i])) m.fail(name + ":read", "what was written and read back is not equal", desc);
    }
  }
}

static void run_p37(mc::MC& m) {
  const bool th = m.thorough;
  using K = std::vector<std::vector<std::uint64_t>>;
  const std::vector<std::uint64_t> u32s = th ? std::vector<std::uint64_t>{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
                                             : std::vector<std::uint64_t>{0, 1, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff};
  const std::vector<std::uint64_t> u64s{0, 1, 0x100, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, ~std::uint64_t(0)};
  auto all = [](const K& al) {
    K k;
    std::vector<std::size_t> radix;
    for (auto& a : al) radix.push_back(a.size());
    mc::product(radix, [&](auto& d) {
      k.emplace_back();
      for (std::size_t i = 0; i < d.size(); ++i) k.back().push_back(al[i][d[i]]);
    });
    return k;
  };
  auto lists = [](const std::vector<std::uint64_t>& al, int n) {
    K k{{}};
    for (std::size_t from = 0; n > 0; --n) {
      const std::size_t to = k.size();
      for (std::size_t i = from; i < to; ++i)
        for (auto v : al) {
          k.push_back(k[i]);
          k.back().push_back(v);
        }
      from = to;
    }
    return k;
  };
  auto u8 = [](std::uint64_t v) { return static_cast<std::uint8_t>(v); };
  auto w32 = [](std::uint64_t v) { return static_cast<std::uint32_t>(v); };
  m.phase("entries");
  comparisons_of<box::SttsEntry>(m, "SttsEntry", all({u32s, u32s}), true, [&](auto& k) { return box::SttsEntry({.sample_count = w32(k[0]), .sample_duration = w32(k[1])}); });
  comparisons_of<box::StscEntry>(m, "StscEntry", all({u32s, u32s, u32s}), true, [&](auto& k) {
    return box::StscEntry({.first_chunk = w32(k[0]), .samples_per_chunk = w32(k[1]), .sample_description_index = w32(k[2])});
  });
  m.phase("types and headers");
  const std::vector<std::uint64_t> bytes = th ? std::vector<std::uint64_t>{0, 1, 0x1f, 0x61, 0x7f, 0x80, 0xff} : std::vector<std::uint64_t>{0, 1, 0x61, 0x7f, 0x80, 0xff};
  comparisons_of<BoxType>(m, "BoxType", all({bytes, bytes, bytes, bytes}), true, [&](auto& k) { return BoxType(std::array<std::uint8_t, 4>{u8(k[0]), u8(k[1]), u8(k[2]), u8(k[3])}); });
  const std::vector<std::uint64_t> types{0, 0x66726565, 0x66726545, 0x6d646174, 0xa9746f6f, 0xffffffff};
  comparisons_of<BoxHeader>(m, "BoxHeader", all({u64s, u64s, {8, 16}, types, {0, 1}}), true, [&](auto& k) {
    return BoxHeader({.offset = k[0], .size = k[1], .header_size = k[2], .type = BoxType(std::array<std::uint8_t, 4>{u8(k[3] >> 24), u8(k[3] >> 16), u8(k[3] >> 8), u8(k[3])}), .extend_to_eof = k[4] != 0});
  });
  m.phase("parameter sets and units");
  comparisons_of<box::AVCParameterSet>(m, "AVCParameterSet", lists({0, 1, 0x67, 0x80, 0xff}, th ? 4 : 3), false, [&](auto& k) { return box::AVCParameterSet({.nal_unit = Bytes(k.begin(), k.end())}); });
  comparisons_of<track::NalUnit>(m, "NalUnit", all({{0, 3, 4, 0x100000003}, u64s, u64s, {0, 1, 0x67, 0x80, 0xff}}), false, [&](auto& k) {
    return track::NalUnit{.start_code_size = k[0], .start = k[1], .end = k[2], .header = u8(k[3])};
  });
  m.phase("offset tables");
  K tables;
  for (std::uint64_t version : {0, 1, 255})
    for (std::uint64_t flags : {0, 1, 0x100, 0x800000, 0xffffff})
      for (auto& l : lists({0, 1, 0xffff, 0x80000000}, 3)) {
        tables.push_back({version, flags});
        tables.back().insert(tables.back().end(), l.begin(), l.end());
      }
  auto stco = [&](auto& k) { return box::Stco({.version = u8(k[0]), .flags = w32(k[1]), .chunk_offsets = std::vector<std::uint32_t>(k.begin() + 2, k.end())}); };
  comparisons_of<box::Stco>(m, "stco", tables, true, stco);
  for (auto& t : tables)
    for (std::size_t i = 2; i < t.size(); ++i)
      if (t[i] > 1) t[i] = t[i] << 32 | (t[i] & 1);
  auto co64 = [&](auto& k) { return box::Co64({.version = u8(k[0]), .flags = w32(k[1]), .chunk_offsets = std::vector<std::uint64_t>(k.begin() + 2, k.end())}); };
  comparisons_of<box::Co64>(m, "co64", tables, true, co64);
  // as boxes of whatever kind: by type, and by version and flags
  std::deque<std::unique_ptr<FullBox>> a, b;
  K vf, ty;
  for (std::uint64_t kind : {0, 1})
    for (std::uint64_t version : {0, 1, 127, 128, 255})
      for (std::uint64_t flags : {0, 1, 0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x800000, 0xffffff}) {
        vf.push_back({kind, version, flags});
        ty.push_back({kind});
        for (auto* l : {&a, &b}) {
          l->emplace_back(kind ? static_cast<FullBox*>(new box::Stco()) : new box::Co64());
          l->back()->setVersion(u8(version));
          l->back()->setFlags(w32(flags));
        }
      }
  comparisons(m, "FullBox", vf, true, [&](std::size_t i, std::size_t j) { return compare<FullBox>(*a[i], *b[j], true); });
  comparisons(m, "Box", ty, true, [&](std::size_t i, std::size_t j) { return compare<Box>(*a[i], *b[j], true); });
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  try {
    if (m.prop == "P09") ut::odd_locale(), run_p09(m);
    else if (m.prop == "P10") run_p10(m);
    else if (m.prop == "P11") run_p11(m);
    else if (m.prop == "P25") ut::odd_locale(), run_p25(m);
    else if (m.prop == "P26") run_p26(m);
    else if (m.prop == "P37") run_p37(m);
    else if (m.prop == "P27") ut::odd_locale(), run_p27(m);
    else return 3;
  } catch (const std::exception& e) {
    m.fail("exception", std::string("unexpected exception: ") + e.what(), "case " + std::to_string(m.idx));
  }
  return m.finish();
}
