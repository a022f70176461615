// P12, P13, P14, P19: every box kind, written and read.
//
// The space of a box kind is a choice tree: structural choices (version, optional fields, list lengths, variants) are
// explored exhaustively by replaying prefixes; at every leaf the value fields, each with an alphabet of boundary
// values, are explored exhaustively around the default point up to k simultaneous deviations, plus the global points
// (every field at its i-th value). The oracle is an encoder written from the standards, which shares nothing with
// the library.
#include "kinds.hpp"

// ------------------------------------------------------------------ memory accounting (P19)
static thread_local bool g_track = false;
static std::uint64_t g_live = 0, g_peak = 0;

static void* counted(std::size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_track) {
    g_live += n;
    if (g_live > g_peak) g_peak = g_live;
  }
  return p;
}
void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
static void uncounted(void* p) {
  if (!p) return;
  if (g_track) {
    const std::size_t n = malloc_usable_size(p);
    g_live = g_live > n ? g_live - n : 0;
  }
  free(p);
}
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t) noexcept { uncounted(p); }

// the default point, every set of up to k deviations, and the global points: f(sel, all)
static void points(const std::vector<std::size_t>& nval, int k, const std::function<void(const std::vector<std::size_t>&, int)>& f) {
  std::vector<std::size_t> sel(nval.size(), 0);
  f(sel, -1);
  std::function<void(std::size_t, int)> rec = [&](std::size_t from, int left) {
    if (left == 0) return;
    for (std::size_t i = from; i < nval.size(); ++i)
      for (std::size_t a = 1; a < nval[i]; ++a) {
        sel[i] = a;
        f(sel, -1);
        rec(i + 1, left - 1);
        sel[i] = 0;
      }
  };
  if (k < 0) return;
  rec(0, k);
  std::size_t mx = 0;
  for (auto n : nval) mx = std::max(mx, n);
  for (std::size_t a = 1; a < mx; ++a) f(sel, static_cast<int>(a));
}
static std::uint64_t count_points(const std::vector<std::size_t>& nval, int k) {
  // number of deviation sets of size up to k
  std::vector<double> e(k + 1, 0);
  e[0] = 1;
  for (auto n : nval)
    for (int j = k; j > 0; --j) e[j] += e[j - 1] * double(n - 1);
  double s = 0;
  for (auto x : e) s += x;
  return s > 1e15 ? ~0ULL : static_cast<std::uint64_t>(s);
}

static std::string vec(const std::vector<std::size_t>& v) {
  std::string s = "[";
  for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + "]";
}

struct Sink {  // what went wrong, if anything
  std::string key, msg;
  void bad(const std::string& k, const std::string& w) {
    if (key.empty()) key = k, msg = w;
  }
};

static std::string diff(const std::string& got, const std::string& want) {
  std::size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return "got " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want.size()) + ", first difference at " + std::to_string(i) +
         ": got " + mc::hex(got.substr(std::min(i, got.size()), 24)) + " expected " + mc::hex(want.substr(std::min(i, want.size()), 24));
}

static void check_write(const Kind& k, const Case& c, Sink& s) {
  const std::string want = ut::str(c.enc);
  for (int pre : {0, 5}) {
    std::ostringstream os;
    os << std::string(static_cast<std::size_t>(pre), 'p');
    const auto wbits = c.box->writeData(os);
    const std::string got = os.str().substr(static_cast<std::size_t>(pre));
    if (got != want) return s.bad("bytes", diff(got, want));
    if (wbits != 8 * want.size()) return s.bad("wbits", "reported " + std::to_string(wbits) + " bits for " + std::to_string(want.size()) + " bytes");
    if (want.size() > 4000) break;
  }
  if (c.box->getDataSize() != want.size())
    return s.bad("size", "announces " + std::to_string(c.box->getDataSize()) + " bytes, wrote " + std::to_string(want.size()));
  const Box* b = c.box.get();
  const auto* any = dynamic_cast<const AnyTypeBox*>(b);
  const BoxType type = any ? any->getType() : b->getType();
  std::ostringstream os;
  c.box->setOffsetAndDataSize(0, c.box->getDataSize());
  c.box->write(os);
  Enc e;
  e.u32(want.size() + 8);
  const std::string got = os.str();
  const std::string t4 = k.name.size() == 4 ? k.name : type.toString().size() == 4 ? type.toString() : got.substr(4, 4);
  const std::string whole = ut::str(e.v) + t4 + want;
  if (got != whole) return s.bad("box", "written with its header: " + diff(got, whole));
}

static void check_read(const Kind& k, Case& c, const Bytes& enc, Box& expect, BoxMap& bm, Sink& s, const std::vector<Bytes>* before = nullptr) {
  const std::string want = ut::str(enc);
  const std::string want_desc = expect.toStringOnlyData();
  static const std::string child = ut::str(ut::box("free", {1, 2, 3, 4}));
  const bool big = want.size() > 4000;
  for (int mode = 0; mode < (before ? 1 : 4); ++mode) {
    // 0: fresh instance, 1: from the registry, 2: at an offset, 3: followed by boxes
    if (mode == 1 && !k.registered) continue;
    if (mode == 3 && !c.children) continue;
    if (big && mode > 1) continue;
    std::shared_ptr<Box> b = mode == 1 ? std::shared_ptr<Box>(bm.getBoxInstance(BoxType(to_arr<4>(k.name)))) : k.fresh();
    if (c.prepare) c.prepare(b.get());
    const char* names[] = {"fresh", "registered", "at an offset", "followed by boxes"};
    const std::string m = names[mode];
    if (before)
      for (auto& p : *before) {
        std::istringstream is(ut::str(p));
        b->readData(is);
      }
    const std::size_t pre = mode == 2 ? 7 : 0;
    std::istringstream is(std::string(pre, 'q') + want + (mode == 3 ? child : ""));
    is.seekg(static_cast<std::streamoff>(pre));
    std::uint64_t rbits;
    try {
      rbits = b->readData(is);
    } catch (const std::exception& e) {
      return s.bad("read", m + ": refused: " + e.what());
    }
    if (rbits != 8 * want.size()) return s.bad("rbits", m + ": reported " + std::to_string(rbits) + " bits of " + std::to_string(8 * want.size()));
    const auto pos = is.tellg();
    if (!is.good() && !is.eof()) return s.bad("stream", m + ": the stream is left in error");
    if (is.good() && static_cast<std::uint64_t>(pos) != pre + want.size())
      return s.bad("position", m + ": the stream is left at " + std::to_string(static_cast<std::int64_t>(pos) - static_cast<std::int64_t>(pre)) + " of " + std::to_string(want.size()));
    if (b->getDataSize() != want.size()) return s.bad("size", m + ": announces " + std::to_string(b->getDataSize()) + " bytes of " + std::to_string(want.size()));
    if (b->getVersion() != expect.getVersion() || b->getFlags() != expect.getFlags())
      return s.bad("version", m + ": version " + std::to_string(b->getVersion()) + " flags " + std::to_string(b->getFlags()));
    std::ostringstream os;
    const auto wbits = b->writeData(os);
    if (os.str() != want) return s.bad("bytes", m + ": written back: " + diff(os.str(), want));
    if (wbits != 8 * want.size()) return s.bad("wbits", m + ": reported " + std::to_string(wbits) + " bits written back");
    const std::string desc = b->toStringOnlyData();
    if (desc != want_desc) {
      std::size_t i = 0;
      while (i < desc.size() && i < want_desc.size() && desc[i] == want_desc[i]) ++i;
      const std::size_t from = i > 30 ? i - 30 : 0;
      return s.bad("description", m + ": describes itself as ..." + desc.substr(from, 120) + "... instead of ..." + want_desc.substr(from, 120));
    }
  }
}

static void check_shown(const Ch& c, const Case& x, Sink& s);
// development only: a list of types to explore instead of all
static bool selected(const Kind& k) {
  static const char* only = getenv("MC_KINDS");
  return !only || std::string(only).find(k.name) != std::string::npos;
}
static void run_codec(mc::MC& m, bool write, bool read, const std::function<bool(const Kind&)>& want, bool describe = false) {
  BoxMap bm;
  register_box_map(&bm);
  for (auto& k : kinds()) {
    if (!want(k) || !selected(k)) continue;
    m.phase("box " + k.name);
    std::vector<std::vector<std::size_t>> paths;
    structures(k, [&](auto& path, auto&) { paths.push_back(path); });
    auto one = [&](Ch& c, bool deviates) {
      const std::vector<std::size_t> path = c.path, sel = c.sel;
      Case x = k.gen(c);
      m.state(mc::hash(ut::str(x.alt_enc), mc::hash(ut::str(x.enc), mc::hash(k.name))));
      m.trace();
      Sink s;
      try {
        if (write) {
          m.trans(3);
          check_write(k, x, s);
        }
        if (read && x.read) {
          m.trans(4);
          check_read(k, x, x.enc, *x.box, bm, s);
        }
        if (read) {
          if (x.alt_box) check_read(k, x, x.alt_enc, *x.alt_box, bm, s);
        }
        if (describe) {
          m.trans();
          check_shown(c, x, s);
        }
      } catch (const std::exception& e) {
        s.bad("exception", std::string("threw ") + e.what());
      }
      m.eval(deviates);
      m.outcome(mc::hash(k.name + s.key));
      auto where = [&] {
        return k.name + " structure " + vec(path) + " values " + (c.all >= 0 ? "all " + std::to_string(c.all) : vec(sel)) +
               (c.wide_at != ~std::size_t{0} ? " field " + std::to_string(c.wide_at) + " extended value " + std::to_string(c.wide_v) : "") + " data " + mc::hex(x.enc, 160);
      };
      if (!s.key.empty()) m.fail(k.name + ":" + s.key, s.msg, where());
      m.sample(where);
    };
    structures(k, [&](auto& path, auto& nval) {
      // as many simultaneous deviations as the kind's share of work allows, at least single ones unless the data is huge
      Ch d;
      d.path = path;
      const std::size_t cost = 1 + k.gen(d).enc.size() / 1000;
      const std::uint64_t limit = (m.thorough ? 8000000 : 45000) / paths.size() / cost;
      int depth = m.thorough ? 4 : 2;
      while (depth > 1 && count_points(nval, depth) > limit) --depth;
      if (cost > 20 && !m.thorough) depth = cost > 500 ? -1 : 0;
      points(nval, depth, [&](auto& sel, int all) {
        if (!m.next()) return;
        Ch c;
        c.path = path;
        c.sel = sel;
        c.all = all;
        one(c, all >= 0 || std::any_of(sel.begin(), sel.end(), [](auto v) { return v != 0; }));
      });
    });
    // single fields with their extended alphabets, in the structures with the most fields
    struct Wide {
      std::vector<std::size_t> path;
      std::vector<std::uint64_t> n;
      std::uint64_t total, cost;
    };
    std::vector<Wide> ws;
    for (auto& p : paths) {
      Ch d;
      d.path = p;
      const std::uint64_t cost = 1 + k.gen(d).enc.size() / 1000;
      std::uint64_t total = 0;
      for (auto n : d.nwide) total += n;
      if (cost <= 2) ws.push_back({p, d.nwide, total, cost});
    }
    std::stable_sort(ws.begin(), ws.end(), [](auto& a, auto& b) { return a.n.size() > b.n.size(); });
    std::uint64_t left = m.thorough ? 2000000 : 80000, used = 0;
    for (auto& w : ws) {
      if (used && w.total * w.cost > left) continue;
      left -= std::min(left, w.total * w.cost), ++used;
      for (std::size_t f = 0; f < w.n.size(); ++f)
        for (std::uint64_t v = 0; v < w.n[f]; ++v) {
          if (!m.next()) continue;
          Ch c;
          c.path = w.path;
          c.wide_at = f;
          c.wide_v = v;
          one(c, true);
        }
    }
    m.count("extended_structures", m.shard == 0 ? used : 0);
    m.count("structures", m.shard == 0 ? paths.size() : 0);
    if (!read) continue;
    // reading into an instance that has read something else: every ordered pair of (spread) structures
    const std::size_t cap = m.thorough ? 160 : 48;
    std::vector<std::vector<std::size_t>> some;
    for (std::size_t i = 0; i < std::min(cap, paths.size()); ++i) some.push_back(paths[i * paths.size() / std::min(cap, paths.size())]);
    std::vector<Case> cs;
    std::vector<std::vector<std::size_t>> some_of;
    for (auto& p : some) {
      Ch c;
      c.path = p;
      some_of.push_back(p);
      cs.push_back(k.gen(c));
      if (!cs.back().alt_box) continue;
      Case other = cs.back();
      other.box = other.alt_box, other.enc = other.alt_enc, other.read = true;
      cs.push_back(other), some_of.push_back(p);
    }
    for (std::size_t i = 0; i < cs.size(); ++i)
      for (std::size_t j = 0; j < cs.size(); ++j) {
        if (!cs[i].read || !cs[j].read || !!cs[i].prepare != !!cs[j].prepare) continue;
        if (cs[i].enc.size() + cs[j].enc.size() > 20000) continue;
        if (!m.next()) continue;
        m.trace();
        m.trans(2);
        Sink s;
        const std::vector<Bytes> before = {cs[i].enc};
        try {
          check_read(k, cs[j], cs[j].enc, *cs[j].box, bm, s, &before);
        } catch (const std::exception& e) {
          s.bad("exception", std::string("threw ") + e.what());
        }
        m.eval(i != j);
        if (!s.key.empty())
          m.fail(k.name + ":again:" + s.key, "in an instance used before, " + s.msg, k.name + " structure " + vec(some_of[i]) + " and then " + vec(some_of[j]));
      }
  }
}

// ------------------------------------------------------------------ P30
// whether a word is the value of a number: decimal, hexadecimal, fixed point, truth value or date
static bool is_value(const Ch::Shown& f, std::string_view w) {
  const std::string t(w);
  if (t == "true" || t == "false") return f.bits == 1 && (t == "true") == (f.v != 0);
  const bool minus = t[0] == '-';
  if (t.size() == static_cast<std::size_t>(minus) || !isdigit(static_cast<unsigned char>(t[minus]))) return false;
  const bool neg = f.sign && f.v >> (f.bits - 1);
  const std::int64_t sv = static_cast<std::int64_t>(neg && f.bits < 64 ? f.v | ~Ch::mask(f.bits) : f.v);
  char b[64];
  if (t.back() == 'Z') {
    if (f.v > 2082844800ULL + 0xffffffffULL) return t == "0000-00-00T00:00:00Z";
    const auto date = ut::civil(static_cast<std::int64_t>(f.v / 86400) - 24107);
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", date.y, date.m, date.d, int(f.v / 3600 % 24), int(f.v / 60 % 60), int(f.v % 60));
    return t == b;
  }
  if (t.find('.') != std::string::npos) {
    const int digits = static_cast<int>(t.size() - 1 - t.find('.'));
    for (double d : {f.sign ? sv / 65536.0 : f.v / 65536.0, f.sign ? sv / 256.0 : f.v / 256.0}) {
      snprintf(b, sizeof b, "%.*f", digits, d);
      if (digits >= 2 && t == b) return true;
    }
    return false;
  }
  char* end = nullptr;
  const bool hex = t.compare(minus, 2, "0x") == 0;
  const std::uint64_t v = strtoull(t.c_str() + minus, &end, hex ? 16 : 10);
  if (*end) return false;
  return minus ? neg && v == -static_cast<std::uint64_t>(sv) : (!neg || hex) && v == f.v;
}
static std::vector<std::string> renderings(const Bytes& f, bool text) {
  auto fmt = [](const char* p, auto... a) { char b[64]; snprintf(b, sizeof b, p, a...); return std::string(b); };
  std::vector<std::string> r = {ut::str(f)};
  std::string l, u, n, h, p;
  for (auto x : f) {
    l += (l.empty() ? "" : ", ") + fmt("0x%02x", x);
    u += (u.empty() ? "" : ", ") + fmt("0x%x", x);
    n += (n.empty() ? "" : ", ") + std::to_string(x);
    h += fmt("%02x", x);
    p += x >= 0x20 && x < 0x7f ? static_cast<char>(x) : '.';
  }
  if (!f.empty())
    for (auto& x : {l, u, n, h}) r.push_back(x);
  if (text && !f.empty()) r.push_back(p);
  return r;
}
// where the first occurrence of a field from `at` on ends
static std::size_t find_field(const std::string& d, const Ch::Shown& f, std::size_t at) {
  auto word = [](char ch) { return isalnum(static_cast<unsigned char>(ch)) || ch == '.' || ch == '-' || ch == ':'; };
  if (f.type == 'n') {
    for (std::size_t p = at; p < d.size();) {
      if (!word(d[p])) {
        ++p;
        continue;
      }
      std::size_t q = p;
      while (q < d.size() && word(d[q])) ++q;
      if ((p == at && p > 0 && word(d[p - 1])) || !is_value(f, std::string_view(d).substr(p, q - p))) {
        p = q;
        continue;
      }
      return q;
    }
    return std::string::npos;
  }
  std::size_t best = std::string::npos;
  for (auto& w : renderings(f.b, f.type == 't')) {
    if (w.empty()) return at;
    for (std::size_t p = d.find(w, at); p < best && p != std::string::npos; p = d.find(w, p + 1))
      if ((p == 0 || !word(d[p - 1]) || !word(w[0])) && (p + w.size() == d.size() || !word(d[p + w.size()]) || !word(w.back()))) best = p + w.size();
  }
  return best;
}
static void check_shown(const Ch& c, const Case& x, Sink& s) {
  const std::string d = x.box->toStringOnlyData();
  std::vector<Ch::Shown> fields = c.shown;
  if (dynamic_cast<FullBox*>(x.box.get()) && x.enc.size() >= 4) {  // version and flags come first, whether the generator chose them as fields or not
    if (!fields.empty() && fields[0].bits == 24) fields.erase(fields.begin());
    fields.insert(fields.begin(), {'n', 24, static_cast<std::uint64_t>(x.enc[1] << 16 | x.enc[2] << 8 | x.enc[3]), {}});
    fields.insert(fields.begin(), {'n', 8, x.enc[0], {}});
  }
  std::size_t at = 0;
  for (std::size_t n = 0; n < fields.size(); ++n) {
    const auto& f = fields[n];
    const std::size_t end = find_field(d, f, at);
    if (end == std::string::npos)
      return s.bad("field", "field " + std::to_string(n + 1) + ", " + (f.type == 'n' ? std::to_string(f.v) + " of " + std::to_string(f.bits) + " bits" : "bytes " + mc::hex(f.b, 40)) +
                                ", is not shown after \"" + d.substr(at > 60 ? at - 60 : 0, std::min<std::size_t>(at, 60)) + "\" in \"" + d.substr(0, 600) + "\"");
    at = end;
  }
}

// ------------------------------------------------------------------ P19
struct Target {
  std::string name;
  std::function<std::shared_ptr<Box>()> make;
};

// whether w is what data consisting of d should be written back as
static bool written_back(const std::string& kind, const std::string& d, const std::string& w) {
  if (w == d) return true;
  // a text that goes on to the end of the data gets its terminator: w with that many zeros taken out is d
  // (only one text, starting at that byte: it must not have been terminated)
  static const std::map<std::string, std::pair<std::size_t, std::size_t>> texts = {{"url ", {1, 4}}, {"urn ", {2, 4}}, {"hdlr", {1, 24}}, {"emsg", {2, 4}}};
  const auto it = texts.find(kind);
  if (it != texts.end() && (it->second.first > 1 || d.find('\0', it->second.second) == std::string::npos)) {
    if (w.size() <= d.size() || w.size() > d.size() + it->second.first || w.back() != '\0') return false;
    std::size_t i = 0, out = 0;
    for (char c : w) {
      if (i < d.size() && d[i] == c) ++i;
      else if (c == '\0') ++out;
      else return false;
    }
    return i == d.size() && out == w.size() - d.size();
  }
  // less than the fields of high profiles after the parameter sets is nothing
  if (kind == "avcC" && d.size() > 7 && (static_cast<std::uint8_t>(d[1]) >= 100 || d[1] == 44 || d[1] == 83)) return d.size() - w.size() < 4 && d.compare(0, w.size(), w) == 0 && w.size() < d.size();
  return false;
}
static void decode(mc::MC& m, const Target& t, const Bytes& data) {
  if (!m.next()) return;
  const std::string s = ut::str(data);
  auto where = [&] { return t.name + " data " + mc::hex(data, 400); };
  m.trace();
  m.trans();
  m.state(mc::hash(s, mc::hash(t.name)));
  auto b = t.make();
  std::istringstream is(s);
  std::uint64_t rbits = 0;
  bool ok = false;
  g_live = g_peak = 0;
  g_track = true;
  try {
    rbits = b->readData(is);
    g_track = false;
    ok = true;
  } catch (const std::exception&) {
    g_track = false;
  } catch (...) {
    g_track = false;
    m.fail(t.name + ":exception", "threw something that is no std::exception", where());
  }
  const std::uint64_t peak = g_peak;
  if (peak > 65536 + 400 * s.size())
    m.fail(t.name + ":memory", "took " + std::to_string(peak) + " bytes of memory for " + std::to_string(s.size()) + " bytes of data", where());
  m.eval(ok);
  m.outcome(mc::mix(mc::hash(t.name), ok ? rbits : ~0ULL));
  m.sample([&] { return where() + (ok ? " decoded" : " refused"); });
  if (!ok) return;
  if (rbits > 8 * s.size()) m.fail(t.name + ":consumed", "reported " + std::to_string(rbits) + " bits of " + std::to_string(8 * s.size()), where());
  try {
    b->toStringOnlyData();
    b->toString();
    const std::uint64_t size = b->getDataSize();
    std::ostringstream os;
    const std::uint64_t wbits = b->writeData(os);
    if (m.prop == "P33") {
      const std::string was = s.substr(0, static_cast<std::size_t>(rbits / 8));
      if (rbits % 8) m.fail(t.name + ":bits", "reported " + std::to_string(rbits) + " bits, no whole number of bytes", where());
      if (!written_back(t.name, was, os.str()))
        m.fail(t.name + ":rewrite", "what is written back differs from what was decoded", where() + " written back " + mc::hex(os.str(), 400));
      return;
    }
    if (os.str().size() != size || wbits != 8 * size)
      m.fail(t.name + ":size", "announces " + std::to_string(size) + " bytes, wrote " + std::to_string(os.str().size()) + ", reported " + std::to_string(wbits) + " bits", where());
    // reading what was written (and what had been left over) gives the same box again; the name of a hdlr box with
    // pre_defined set has two forms that cannot always be told apart
    if (t.name == "hdlr" && s.size() >= 8 && s.substr(4, 4) != std::string(4, '\0')) return;
    auto b2 = t.make();
    std::istringstream is2(os.str() + s.substr(static_cast<std::size_t>(rbits / 8)));
    std::uint64_t rbits2;
    try {
      rbits2 = b2->readData(is2);
    } catch (const std::exception& e) {
      return m.fail(t.name + ":reread", std::string("what was written back is refused: ") + e.what(), where() + " written back " + mc::hex(os.str(), 200));
    }
    std::ostringstream os2;
    b2->writeData(os2);
    if (os2.str() != os.str() || b2->toStringOnlyData() != b->toStringOnlyData())
      m.fail(t.name + ":fixpoint", "what was written back reads as something else: " + b->toStringOnlyData() + " / " + b2->toStringOnlyData(), where() + " written back " + mc::hex(os.str(), 200) + " and " + mc::hex(os2.str(), 200));
    if (rbits2 != wbits) m.fail(t.name + ":reread-bits", "reads " + std::to_string(rbits2) + " bits of the " + std::to_string(wbits) + " it wrote", where());
  } catch (const std::exception& e) {
    m.fail(t.name + ":after", std::string("decoded, but then threw ") + e.what(), where());
  }
}

// what comes before the bytes that are enumerated: versions, flags and other selectors
static std::vector<Bytes> selectors(const std::string& name, bool full) {
  std::vector<Bytes> r;
  if (!full) {
    r.push_back({});
  } else {
    for (unsigned v : {0, 1, 2}) {
      std::vector<std::uint32_t> fl = {0, 1, 0xffffff};
      if (name == "trun") fl = {0, 1, 4, 0x100, 0x800, 0x105, 0xf05, 0xf00};
      if (name == "tfhd") fl = {0, 1, 2, 0x3b, 0x30000};
      for (auto f : fl) {
        Enc e;
        r.push_back(e.full(v, f).v);
      }
    }
  }
  auto extend = [&](const std::vector<Bytes>& tails) {
    std::vector<Bytes> q;
    for (auto& a : r)
      for (auto& b : tails) q.push_back(ut::cat({a, b}));
    r = q;
  };
  auto s = [](const char* p) { return ut::bytes(p); };
  if (name == "sgpd") {
    std::vector<Bytes> t;
    for (const char* g : {"roll", "rap ", "tele", "alst", "zzzz"})
      for (std::uint32_t dl : {0U, 1U, 2U, 12U, 0xffffffffU}) {
        Enc e;
        t.push_back(e.str(g).u32(dl).v);
      }
    extend(t);
  }
  if (name == "sbgp") extend({s("roll")});
  if (name == "colr") extend({s("nclx"), s("rICC"), s("zzzz"), {}});
  if (name == "esds") {
    extend({{}, {3}, {4}, {5}, {6}, {3, 3}, {4, 13}, {0x0e}});
  }
  if (name == "iods") extend({{0x10}, {0x10, 0x80, 0x80, 0x80}});
  if (name == "avcC") extend({{1, 0x42, 0, 30}, {1, 0x64, 0, 30}, {1, 0x64, 0, 30, 0xff, 0xe0, 0}});
  if (name == "vpcC") extend({Bytes(6, 1)});
  if (name == "dOps") extend({Bytes(10, 2), {}});
  if (name == "hdlr") {
    Enc a, b;
    a.u32(0).str("vide").zero(12);
    b.u32(1).str("vide").zero(12);
    extend({a.v, b.v});
  }
  if (name == "emsg") {
    extend({{}, Bytes(20, 1)});
  }
  if (name == "pssh") extend({Bytes(16, 1)});
  if (name == "sidx") extend({Bytes(16, 1), Bytes(24, 1)});
  if (name == "tfra") {
    std::vector<Bytes> t;
    for (std::uint8_t x : {0x00, 0x3f, 0x15}) t.push_back({0, 0, 0, 1, 0, 0, 0, x});
    extend(t);
  }
  if (name == "mp4a" || name == "Opus") {
    std::vector<Bytes> t;
    for (std::uint8_t v : {0, 1, 2, 3}) {
      Enc e;
      t.push_back(e.zero(6).u16(1).u16(v).zero(6).u16(2).u16(16).u32(0).u32(0).v);
    }
    extend(t);
  }
  return r;
}

// texts that go on to the end of the data: accepted, and written back with their terminators
static void unterminated(mc::MC& m) {
  m.phase("texts without a terminator");
  auto one = [&](const std::string& kind, const Bytes& d, const Bytes& want) {
    if (!m.next()) return;
    m.trace();
    m.trans(2);
    m.state(mc::hash(ut::str(d), mc::hash(kind)));
    m.eval(true);
    auto where = [&] { return kind + " data " + mc::hex(d, 200) + " (text not terminated)"; };
    m.sample(where);
    for (auto& k : kinds()) {
      if (k.name != kind) continue;
      auto b = k.fresh();
      std::istringstream is(ut::str(d));
      std::ostringstream os;
      try {
        const auto rbits = b->readData(is);
        b->writeData(os);
        m.outcome(mc::mix(rbits, mc::hash(kind)));
        if (rbits != 8 * d.size()) m.fail(kind + ":text-bits", "reported " + std::to_string(rbits) + " bits", where());
        else if (os.str() != ut::str(want)) m.fail(kind + ":text", "is written back as " + mc::hex(os.str(), 200), where());
      } catch (const std::exception& e) {
        m.fail(kind + ":text-refused", std::string("threw ") + e.what(), where());
      }
      break;
    }
  };
  auto put = [](const Bytes& head, const std::string& t, int zeros) {
    Enc e;
    e.bytes(head).str(t).zero(static_cast<std::size_t>(zeros));
    return e.v;
  };
  const std::size_t top = m.thorough ? 300 : 60;
  for (unsigned ver : {0, 1})
    for (std::size_t n = 0; n <= top; ++n)
      for (char c : {'a', '\xff'}) {
        const std::string t(n, c), w(3, 'b');
        Enc full, hd, em;
        full.full(ver, 0);
        const std::string first = w + std::string(1, '\0');
        one("url ", put(full.v, t, 0), put(full.v, t, 1));
        one("urn ", put(full.v, first + t, 0), put(full.v, first + t, 1));
        em.full(1, 0).u32(1000).u64(77).u32(5).u32(6);
        if (ver == 1) {
          one("emsg", put(em.v, t, 0), put(em.v, t, 2));
          one("emsg", put(em.v, first + t, 0), put(em.v, first + t, 1));
        }
        hd.full(ver, 0).u32(0).str("vide").zero(12);
        one("hdlr", put(hd.v, t, 0), put(hd.v, t, 1));
      }
}

static void run_p19(mc::MC& m) {
  BoxMap bm;
  register_box_map(&bm);
  const auto all = kinds();
  static const std::set<std::string> plain = {"ftyp", "styp", "free", "skip", "mdat", "unsupported", "data", "btrt", "fiel", "pasp", "avc1", "mp4a", "Opus",
                                              "avcC", "av1C", "dOps", "colr", "moov", "wave", "----"};
  static const std::set<std::string> same = {"encv", "vp08", "vp09", "vp10", "av01", "enca", "trak", "mdia", "minf", "stbl", "dinf", "edts", "udta",
                                             "mvex", "moof", "traf", "mfra", "sinf", "schi", "ilst", "covr", "\xa9" "nam", "trkn"};
  for (auto& k : all) {
    if (same.count(k.name) || !selected(k)) continue;
    m.phase("decoding as " + k.name);
    Target t{k.name, [&bm, k] {
               return k.registered ? std::shared_ptr<Box>(bm.getBoxInstance(BoxType(to_arr<4>(k.name)))) : k.fresh();
             }};
    std::vector<Target> targets = {t};
    if (k.name == "mp4a")
      targets.push_back({"mp4a in wave", [t] {
                           auto b = t.make();
                           dynamic_cast<box::AudioSampleEntry&>(*b).setUnderWave(true);
                           return b;
                         }});
    for (auto& tg : targets) {
      // 1. every byte string over a small alphabet, after every selector
      static const std::vector<std::uint8_t> alpha = {0x00, 0x01, 0x05, 0x80, 0xff};
      const std::size_t depth = m.thorough ? 7 : m.prop == "P33" ? 6 : 5;
      for (auto& p : selectors(k.name, !plain.count(k.name)))
        for (std::size_t n = 0; n <= depth; ++n)
          mc::product(std::vector<std::size_t>(n, alpha.size()), [&](auto& d) {
            Bytes b = p;
            for (auto i : d) b.push_back(alpha[i]);
            decode(m, tg, b);
          });
      // the selectors themselves, cut anywhere
      for (auto& p : selectors(k.name, !plain.count(k.name)))
        for (std::size_t n = 0; n < p.size(); ++n) decode(m, tg, Bytes(p.begin(), p.begin() + static_cast<std::ptrdiff_t>(n)));
    }
    // 2. well-formed data of every structure, with every cut, byte and count replaced
    std::vector<Bytes> good;
    std::set<Bytes> seen;
    structures(k, [&](auto& path, auto&) {
      for (int a : {-1, 3}) {
        Ch c;
        c.path = path;
        c.all = a;
        Case x = k.gen(c);
        for (auto* e : {&x.enc, &x.alt_enc})
          if (e->size() <= (m.thorough ? 400 : 160) && seen.insert(*e).second) good.push_back(*e);
      }
    });
    const std::size_t cap = m.thorough ? 400 : 80, ng = std::min(cap, good.size());
    for (std::size_t g = 0; g < ng; ++g) {
      const Bytes& b = good[g * good.size() / ng];
      decode(m, t, b);
      for (std::size_t n = 0; n < b.size(); ++n) decode(m, t, Bytes(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(n)));
      static const std::vector<std::uint8_t> subst = {0x00, 0x01, 0x02, 0x03, 0x04, 0x7f, 0x80, 0xfe, 0xff};
      for (std::size_t i = 0; i < b.size(); ++i)
        for (auto v : subst) {
          Bytes c = b;
          if (c[i] == v) continue;
          c[i] = v;
          decode(m, t, c);
          if (b.size() < 100 && (m.thorough || (m.prop == "P33" && g < 3 && (v == 0 || v == 3 || v == 0xff))))
            for (std::size_t j = i + 1; j < b.size(); ++j)
              for (std::uint8_t w : {0x00, 0x01, 0x80, 0xff}) {
                Bytes d = c;
                d[j] = w;
                decode(m, t, d);
              }
        }
      static const std::vector<std::uint32_t> bombs = {0xffffffff, 0x7fffffff, 0x80000000, 0x40000000, 0x20000001, 0x10000000, 0x00ffffff, 0x0000ffff, 0};
      for (std::size_t i = 0; i + 4 <= b.size(); ++i)
        for (auto v : bombs) {
          Bytes c = b;
          for (int q = 0; q < 4; ++q) c[i + q] = static_cast<std::uint8_t>(v >> (24 - 8 * q));
          decode(m, t, c);
          // and data that ends right there
          c.resize(i + 4);
          decode(m, t, c);
        }
      // something more at the end
      for (std::size_t n : {1, 4, 8, 100}) {
        Bytes c = b;
        c.insert(c.end(), n, 0xff);
        decode(m, t, c);
      }
    }
  }
}

// ------------------------------------------------------------------ P31
// a stream without buffer, one of whose operations (or all from one on) fails
struct FaultBuf : std::streambuf {
  std::string s;
  std::uint64_t pos = 0, ops = 0, at = ~0ULL;
  bool once = true;
  int how = 0;  // 0 the failure value, 1 an exception, 2 half of what was asked for
  FaultBuf() = default;
  explicit FaultBuf(std::string t) : s(std::move(t)) {}
  bool fails() {
    const std::uint64_t n = ops++;
    if (once ? n != at : n < at) return false;
    if (how == 1) throw std::runtime_error("the device failed");
    return true;
  }
  int_type underflow() override {
    if (fails() || pos >= s.size()) return traits_type::eof();
    return traits_type::to_int_type(s[pos]);
  }
  int_type uflow() override {
    if (fails() || pos >= s.size()) return traits_type::eof();
    return traits_type::to_int_type(s[pos++]);
  }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    std::uint64_t k = std::min<std::uint64_t>(static_cast<std::uint64_t>(n), s.size() - std::min<std::uint64_t>(pos, s.size()));
    if (fails()) k = how == 2 ? k / 2 : 0;
    std::copy_n(s.data() + pos, k, p);
    pos += k;
    return static_cast<std::streamsize>(k);
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    return put(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override { return put(p, n); }
  std::streamsize put(const char* p, std::streamsize n) {
    if (fails()) n = how == 2 ? n / 2 : 0;
    if (s.size() < pos + static_cast<std::uint64_t>(n)) s.resize(pos + static_cast<std::uint64_t>(n));
    std::copy_n(p, n, s.data() + pos);
    pos += static_cast<std::uint64_t>(n);
    return n;
  }
  pos_type to(off_type p) {
    if (p < 0 || static_cast<std::uint64_t>(p) > s.size() + 64) return pos_type(off_type(-1));
    pos = static_cast<std::uint64_t>(p);
    return pos_type(p);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    if (fails()) return pos_type(off_type(-1));
    return to(o + static_cast<off_type>(d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? pos : s.size()));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override {
    if (fails()) return pos_type(off_type(-1));
    return to(off_type(p));
  }
};

struct FaultRun {
  bool ok = false;      // ended without an error
  std::string result;   // everything that can be observed
  std::string early;    // what was printed although an error was reported
  std::uint64_t ops = 0;
};
// every operation x every way of failing
static void faults(mc::MC& m, const std::string& key, const std::function<FaultRun(std::uint64_t, bool, int, bool)>& run, const std::function<std::string()>& where,
                   bool always_noticed) {
  if (!m.next()) return;  // a case is everything that can fail in one call
  FaultRun ref;
  try {
    ref = run(~0ULL, true, 0, false);
  } catch (const std::exception& e) {
    return m.fail(key + ":exception", e.what(), where());
  }
  if (!ref.ok) return m.fail(key + ":fault-free", "reported an error although nothing failed: " + ref.result, where());
  m.sample([&] { return where() + ": " + std::to_string(ref.ops) + " operations"; });
  for (std::uint64_t at = 0; at < ref.ops; ++at)
    for (int mode = 0; mode < 8; ++mode) {
      const bool once = mode & 1, exc = mode >= 6;
      const int how = exc ? 0 : mode / 2;
      FaultRun r;
      try {
        r = run(at, once, how, exc);
      } catch (...) {
        return m.fail(key + ":exception", "threw something that is no std::exception", where());
      }
      m.trans();
      m.eval(true);
      auto w = [&] {
        return where() + ": operation " + std::to_string(at) + " of " + std::to_string(ref.ops) + (once ? " fails once" : " and all after it fail") +
               (how == 1 ? " by throwing" : how == 2 ? " after half of the data" : exc ? " on a stream that throws" : "");
      };
      if (!r.early.empty()) return m.fail(key + ":printed", "an error was reported, but \"" + r.early.substr(0, 200) + "\" printed", w());
      if (r.ok && r.result != ref.result)
        return m.fail(key + ":unnoticed", "no error was reported; the result is " + r.result.substr(0, 200) + " instead of " + ref.result.substr(0, 200), w());
      if (r.ok && always_noticed) return m.fail(key + ":unnoticed", "no error was reported", w());
    }
  m.trace();
}

static FaultRun fault_dump(const std::string& file, std::uint64_t at, bool once, int how, bool exc, bool output) {
  FaultRun r;
  FaultBuf in(file), out;
  (output ? out : in).at = at;
  (output ? out : in).once = once;
  (output ? out : in).how = how;
  auto* old = std::cout.rdbuf(&out);
  if (output && exc) std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit);
  try {
    std::istream is(&in);
    if (!output && exc) is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    reader::SimpleReader rd(is);
    rd.read();
    r.ok = true;
  } catch (const std::exception& e) {
    r.result = e.what();
  }
  std::cout.exceptions(std::ios_base::goodbit);
  std::cout.rdbuf(old);
  std::cout.clear();
  if (r.ok) r.result = out.s;
  else if (!output) r.early = out.s;
  r.ops = (output ? out : in).ops;
  return r;
}

static void run_p31(mc::MC& m) {
  const std::size_t cap = m.thorough ? 1000 : 150, limit = m.thorough ? 1500 : 400;
  m.phase("bit streams");
  for (int first = 0; first < 9; ++first)
    for (int second = 0; second < 9; ++second)
      for (int skew = 0; skew < 2; ++skew) {
        faults(m, "bits:read",
               [&](std::uint64_t at, bool once, int how, bool exc) {
                 FaultRun r;
                 FaultBuf b(std::string("\x03\x41\x42\x43\0\x82\x03\xff\xfe\x80\x80\x01yz\0\x04wxyz\0\x7f\x01\x02\x03\x04\x05\x06\x07\x08\0\0", 32));
                 b.at = at, b.once = once, b.how = how;
                 try {
                   std::istream is(&b);
                   if (exc) is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                   bitio::Reader rd(is);
                   auto note = [&](auto v) { r.result += std::to_string(v) + " "; };
                   auto call = [&](int c) {
                     if (c == 0) { std::int16_t v; note(bitio::read_int(&rd, &v, 11)), note(v), note(bitio::read_int(&rd, &v, 5)), note(v); }
                     if (c == 1) { std::uint64_t v; note(bitio::read_uint(&rd, &v, 40)), note(v); }
                     if (c == 2) { std::string v; note(bitio::read_string(&rd, &v, 60)), r.result += v; }
                     if (c == 3) { std::string v; note(bitio::read_pascal_string(&rd, &v, 32)), r.result += v; }
                     if (c == 4) { bool v; for (int i = 0; i < 8; ++i) note(bitio::read_bool(&rd, &v)), note(v); }
                     if (c == 5) { std::uint32_t v; note(bitio::read_uvarint(&rd, &v)), note(v); }
                     if (c == 6) { std::vector<std::uint16_t> v; note(bitio::read_vector_uint(&rd, 3, &v)); for (auto x : v) note(x); }
                     if (c == 7) { std::array<std::uint8_t, 4> v; note(bitio::read_array_uint8_4(&rd, &v)), note(v[0]), note(v[3]); }
                     if (c == 8 && !skew) { std::vector<std::uint8_t> v(5); note(rd.read(&v)), note(v[0]), note(v[4]), note(rd.seek(2, std::ios_base::cur)), note(rd.seek(9, std::ios_base::beg)); }
                     if (c == 8 && skew) note(rd.seek(9, std::ios_base::beg));
                   };
                   if (skew) note(rd.readBit());
                   call(first);
                   call(second);
                   r.ok = true;
                 } catch (const std::exception& e) {
                   r.result = e.what();
                 }
                 r.ops = b.ops;
                 return r;
               },
               [&] { return "bit reader calls " + std::to_string(first) + " and " + std::to_string(second) + (skew ? " after a bit" : ""); }, false);
        faults(m, "bits:write",
               [&](std::uint64_t at, bool once, int how, bool exc) {
                 FaultRun r;
                 FaultBuf b;
                 b.at = at, b.once = once, b.how = how;
                 try {
                   std::ostream os(&b);
                   if (exc) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                   bitio::Writer w(os);
                   auto note = [&](auto v) { r.result += std::to_string(v) + " "; };
                   auto call = [&](int c) {
                     if (c == 0) note(bitio::write_int<std::int16_t>(&w, -700, 11)), note(bitio::write_int<std::int16_t>(&w, 5, 5));
                     if (c == 1) note(bitio::write_uint<std::uint64_t>(&w, 0xa1b2c3d4e5ULL, 40));
                     if (c == 2) note(bitio::write_string(&w, "hello"));
                     if (c == 3) note(bitio::write_pascal_string(&w, "abc"));
                     if (c == 4) for (int i = 0; i < 8; ++i) note(bitio::write_bool(&w, i % 3 == 0));
                     if (c == 5) note(bitio::write_uvarint<std::uint32_t>(&w, 300));
                     if (c == 6) note(bitio::write_vector_uint<std::uint16_t>(&w, {1, 0x8000, 9}));
                     if (c == 7) note(bitio::write_array_uint8_4(&w, {1, 2, 3, 4}));
                     if (c == 8 && !skew) note(w.write({5, 6, 7, 8}));
                   };
                   if (skew) w.writeBit(true);
                   call(first);
                   call(second);
                   r.ok = true;
                   r.result += mc::hex(b.s);
                 } catch (const std::exception& e) {
                   r.result = e.what();
                 }
                 r.ops = b.ops;
                 return r;
               },
               [&] { return "bit writer calls " + std::to_string(first) + " and " + std::to_string(second) + (skew ? " after a bit" : ""); }, false);
      }
  for (auto& k : kinds()) {
    if (!selected(k)) continue;
    m.phase("box " + k.name);
    std::vector<std::vector<std::size_t>> paths;
    structures(k, [&](auto& path, auto&) {
      Ch c;
      c.path = path;
      if (k.gen(c).enc.size() <= limit) paths.push_back(path);
    });
    for (std::size_t i = 0; i < std::min(cap, paths.size()); ++i) {
      const auto path = paths[i * paths.size() / std::min(cap, paths.size())];
      Ch c;
      c.path = path;
      Case x = k.gen(c);
      m.state(mc::hash(ut::str(x.enc), mc::hash(k.name)));
      auto where = [&] { return k.name + " structure " + vec(path) + " data " + mc::hex(x.enc, 160); };
      for (int alt = 0; alt < (x.alt_box ? 2 : 1); ++alt) {
        const Bytes enc = alt ? x.alt_enc : x.enc;
        if (x.read)
          faults(m, "decode",
                 [&](std::uint64_t at, bool once, int how, bool exc) {
                   FaultRun r;
                   FaultBuf b(ut::str(enc));
                   b.at = at, b.once = once, b.how = how;
                   auto bx = k.fresh();
                   if (x.prepare) x.prepare(bx.get());
                   try {
                     std::istream is(&b);
                     if (exc) is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                     const auto bits = bx->readData(is);
                     r.ok = true;
                     r.result = std::to_string(bits) + " bits " + bx->toStringOnlyData();
                   } catch (const std::exception& e) {
                     r.result = e.what();
                   }
                   r.ops = b.ops;
                   return r;
                 },
                 [&] { return "decoding " + where(); }, false);
        if (x.read && !x.prepare) {
          static const Bytes child = ut::box("free", {1, 2, 3, 4});
          Bytes data = enc;
          if (x.children) data.insert(data.end(), child.begin(), child.end());
          const auto bx = ut::box(k.name.size() == 4 ? k.name.c_str() : "zzzz", data);
          Bytes f = child;
          f.insert(f.end(), bx.begin(), bx.end());
          if (i < (m.thorough ? 200u : 20u))
            faults(m, "dump", [&](std::uint64_t at, bool once, int how, bool exc) { return fault_dump(ut::str(f), at, once, how, exc, false); },
                   [&] { return "dumping a file with " + where(); }, false);
        }
      }
      for (int whole = 0; whole < 2; ++whole)
        faults(m, whole ? "write" : "encode",
               [&](std::uint64_t at, bool once, int how, bool exc) {
                 FaultRun r;
                 FaultBuf b;
                 b.at = at, b.once = once, b.how = how;
                 try {
                   std::ostream os(&b);
                   if (exc) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                   std::uint64_t n;
                   if (whole) {
                     x.box->setOffsetAndDataSize(0, x.box->getDataSize());
                     n = x.box->write(os);
                   } else {
                     n = x.box->writeData(os);
                   }
                   r.ok = true;
                   r.result = std::to_string(n) + " " + mc::hex(b.s);
                 } catch (const std::exception& e) {
                   r.result = e.what();
                 }
                 r.ops = b.ops;
                 return r;
               },
               [&] { return (whole ? "writing the box " : "encoding ") + where(); }, false);
    }
  }
  m.phase("files");
  using ut::Enc;
  auto cat = [](std::initializer_list<Bytes> l) {
    Bytes r;
    for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
    return r;
  };
  auto large = [](const char* t, const Bytes& d) {
    Enc e;
    e.u32(1).str(t).u64(16 + d.size()).bytes(d);
    return e.v;
  };
  auto toeof = [](const char* t, const Bytes& d) {
    Enc e;
    e.u32(0).str(t).bytes(d);
    return e.v;
  };
  const Bytes stts = ut::box("stts", ut::bytes(std::string("\0\0\0\0\0\0\0\1\0\0\0\2\0\0\0\3", 16)));
  const Bytes leaf = ut::box("free", {9, 8, 7}), unknown = ut::box("zzzz", {1, 2, 3, 4, 5});
  std::vector<Bytes> files = {
      leaf,
      cat({leaf, unknown, leaf}),
      large("mdat", Bytes(40, 7)),
      toeof("mdat", Bytes(23, 7)),
      large("moov", cat({stts, large("trak", cat({leaf, stts})), unknown})),
      cat({leaf, toeof("moov", cat({stts, ut::box("udta", {}), large("trak", large("mdia", stts))}))}),
      cat({ut::box("moov", {}), ut::box("mdat", Bytes(70, 0xff)), large("free", {})}),
      ut::box("mdat", Bytes(m.thorough ? 5000 : 600, 0x41)),
      Bytes{},
  };
  Bytes deep = stts;
  for (int i = 0; i < (m.thorough ? 40 : 9); ++i) deep = i % 2 ? ut::box("moov", deep) : large("trak", deep);
  files.push_back(deep);
  for (auto& f : files)
    for (int out = 0; out < 2; ++out)
      faults(m, out ? "print" : "dump", [&](std::uint64_t at, bool once, int how, bool exc) { return fault_dump(ut::str(f), at, once, how, exc, out); },
             [&] { return std::string(out ? "printing the dump of" : "dumping") + " file " + mc::hex(f, 200); }, out);
}

int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "prof") {  // size of the space
    for (auto& k : kinds()) {
      std::uint64_t ns = 0, n1 = 0, n2 = 0, by = 0;
      structures(k, [&](auto& path, auto& nval) {
        Ch c;
        c.path = path;
        ++ns, n1 += count_points(nval, 1), n2 += count_points(nval, 2), by += k.gen(c).enc.size();
      });
      printf("%s: %lu structures, %lu points with single deviations, %lu with pairs, %lu bytes\n", k.name.c_str(), ns, n1, n2, by);
    }
    return 0;
  }
  mc::MC m(argc, argv);
  spdlog::set_level(spdlog::level::off);
  if (m.prop == "P12") run_codec(m, true, false, [](const Kind&) { return true; });
  else if (m.prop == "P13") run_codec(m, false, true, [](const Kind& k) { return k.name != "esds"; });
  else if (m.prop == "P14") run_codec(m, true, true, [](const Kind& k) { return k.name == "esds"; });
  else if (m.prop == "P19" || m.prop == "P33") {
    if (m.prop == "P33") unterminated(m);
    run_p19(m);
  }
  else if (m.prop == "P30") ut::odd_locale(), run_codec(m, false, false, [](const Kind&) { return true; }, true);
  else if (m.prop == "P31") run_p31(m);
  else return 3;
  return m.finish();
}
