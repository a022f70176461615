// P23 H.264 byte streams are split into samples, P24 the configuration record carries every parameter set once.
//
// The model splits by the positions of 00 00 01; the real scanner, track and writers run every stream of the spaces
// below, and the finished file is read by the reference parser.
#include "mux.hpp"

#include <algorithm>
#include <memory>

using namespace mx;
namespace tk = lib::track;

namespace {

struct Decl {
  u8 conf = 1, profile = 0x42, compat = 0xc0, level = 31;
};
struct Call {
  int t = 0;
  Bytes b;
  bool key = false, ptr = false, term = false;
};

string text(const vector<Call>& cs, bool fast) {
  string s = fast ? "faststart:" : "simple:";
  int n = 0;
  for (auto& c : cs) {
    if (++n > 12) return s + " ... (" + to_string(cs.size()) + " calls)";
    if (c.term) {
      s += " term(" + to_string(c.t) + ")";
      continue;
    }
    s += " add(" + to_string(c.t) + "," + mc::hex(c.b, 48) + (c.key ? ",key" : "") + (c.ptr ? ",ptr)" : ")");
  }
  return s;
}

// ---------------------------------------------------------------- model
struct Unit {
  std::size_t begin, payload, end;
};
// Units of b; a start code is 00 00 01, or 00 00 00 01 where a zero precedes it.
bool split(const Bytes& b, vector<Unit>* u) {
  u->clear();
  for (std::size_t p = 2; p < b.size(); ++p) {
    if (b[p] != 1 || b[p - 1] != 0 || b[p - 2] != 0) continue;
    std::size_t begin = p - 2;
    if (begin > 0 && b[begin - 1] == 0) --begin;
    if (!u->empty()) u->back().end = begin;
    u->push_back({begin, p + 1, b.size()});
  }
  return !u->empty() && u->front().begin == 0;
}

struct Sample {
  Bytes b;
  bool key;
};
struct Model {
  bool refused = false;
  vector<vector<Sample>> samples;
  vector<vector<Bytes>> sps, pps;
  // more or longer parameter sets than a configuration record can hold
  bool over() const {
    auto any = [](const vector<vector<Bytes>>& l, std::size_t n) {
      for (auto& v : l) {
        if (v.size() > n) return true;
        for (auto& b : v)
          if (b.size() > 65535) return true;
      }
      return false;
    };
    return any(sps, 31) || any(pps, 255);
  }
};
Model model(std::size_t nt, const vector<Call>& cs) {
  Model m;
  m.samples.resize(nt);
  m.sps.resize(nt);
  m.pps.resize(nt);
  auto once = [](vector<Bytes>* l, const Bytes& b) {
    for (auto& x : *l)
      if (x == b) return;
    l->push_back(b);
  };
  for (auto& c : cs) {
    if (c.term) continue;
    vector<Unit> us;
    if (!split(c.b, &us)) {
      m.refused = true;
      return m;
    }
    for (auto& u : us) {
      if (u.payload >= u.end) {
        m.refused = true;
        return m;
      }
      const Bytes nal(c.b.begin() + static_cast<long>(u.payload), c.b.begin() + static_cast<long>(u.end));
      const int type = nal[0] % 32;
      if (type == 7) once(&m.sps[c.t], nal);
      else if (type == 8) once(&m.pps[c.t], nal);
      else if (type >= 1 && type <= 5) m.samples[c.t].push_back({nal, c.key});
      else if (type != 6) {
        m.refused = true;
        return m;
      }
    }
  }
  return m;
}

// ---------------------------------------------------------------- real code
struct Outcome {
  bool refused = false;
  string file, what;
};
Outcome run(const vector<Decl>& ds, const vector<Call>& cs, bool fast) {
  MemBuf buf;
  std::ostream os(&buf);
  Outcome o;
  std::unique_ptr<lib::writer::Writer> w;
  if (fast) w.reset(new lib::writer::FaststartWriter(os, {.mvhd_timescale = 1000, .duration = 1}));
  else w.reset(new lib::writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = 1}));
  w->writeFtypBox();
  vector<std::unique_ptr<tk::H264Track>> ts;
  for (auto& d : ds)
    ts.emplace_back(new tk::H264Track({.timescale = 100000, .duration = 1, .track_id = w->getAndUpdateNextTrackID(), .width = 64, .height = 48, .configuration_version = d.conf, .profile = d.profile, .profile_compatibility = d.compat, .level = d.level, .writer = w.get()}));
  u64 now = 0;
  for (auto& c : cs) {
    if (c.term) {
      ts[c.t]->terminateCurrentChunk();
      continue;
    }
    try {
      if (c.ptr) {
        std::unique_ptr<u8[]> p(new u8[c.b.size()]);  // of exactly this size
        std::copy(c.b.begin(), c.b.end(), p.get());
        ts[c.t]->addData(now, p.get(), c.b.size(), c.key);
        std::fill(p.get(), p.get() + c.b.size(), 0xee);
      } else {
        vector<u8> v(c.b.begin(), c.b.end());
        v.shrink_to_fit();
        ts[c.t]->addData(now, v, c.key);
      }
    } catch (const std::exception& e) {
      o.refused = true;
      o.what = e.what();
      return o;
    }
    now += 10;
  }
  vector<tk::Track*> v;
  for (auto& t : ts) v.push_back(t.get());
  w->appendTrakAndUdtaBoxInfo(v);
  if (fast) {
    auto* f = static_cast<lib::writer::FaststartWriter*>(w.get());
    f->writeMoovBox();
    f->writeMdatHeader();
    f->copyMdatData();
  } else {
    auto* s = static_cast<lib::writer::SimpleWriter*>(w.get());
    s->writeFreeBoxAndMdatHeader();
    s->writeMoovBox();
  }
  o.file = std::move(buf.s);
  return o;
}

// ---------------------------------------------------------------- oracles
void samples_ok(const File<StrSrc>& f, const Model& m) {
  u64 total = 0;
  for (std::size_t t = 0; t < m.samples.size(); ++t) {
    auto& want = m.samples[t];
    const auto l = f.samples(int(t));
    const string who = "track " + to_string(t) + " ";
    if (l.size() != want.size())
      throw Err("samples:count", who + "has " + to_string(l.size()) + " samples, the stream holds " + to_string(want.size()) + " slices");
    for (std::size_t k = 0; k < l.size(); ++k) {
      const string got = f.s.str(l[k].off, l[k].size);
      const u64 n = want[k].b.size();
      string w = {char(n >> 24), char(n >> 16), char(n >> 8), char(n)};
      w.append(want[k].b.begin(), want[k].b.end());
      if (got != w) throw Err("samples:bytes", who + "sample " + to_string(k) + " reads " + mc::hex(got, 40) + " instead of " + mc::hex(w, 40));
      if (l[k].off < f.mdat->data() || l[k].off + l[k].size > f.mdat->end()) throw Err("samples:outside", who + "sample " + to_string(k) + " outside the media data");
      total += l[k].size;
    }
    // sync samples
    std::vector<bool> sync(l.size(), false);
    if (auto* s = f.stbl(int(t)).find("stss")) {
      const u64 n = f.be(*s, 4, 4);
      if (s->dsize() != 8 + 4 * n) throw Err("structure:entries", "stss");
      u64 last = 0;
      for (u64 i = 0; i < n; ++i) {
        const u64 x = f.be(*s, 8 + 4 * i, 4);
        if (x <= last || x > l.size()) throw Err("samples:key", who + "lists " + to_string(x) + " as a key sample");
        sync[x - 1] = true;
        last = x;
      }
    } else {
      sync.assign(l.size(), true);
    }
    for (std::size_t k = 0; k < l.size(); ++k)
      if (sync[k] != want[k].key) throw Err("samples:key", who + "sample " + to_string(k) + (sync[k] ? " is" : " is not") + " marked as a key sample");
  }
  if (total != f.mdat->dsize())
    throw Err("samples:mdat", "the media data holds " + to_string(f.mdat->dsize()) + " bytes, the slices " + to_string(total));
}

void record_ok(const File<StrSrc>& f, const Model& m, const vector<Decl>& ds) {
  for (std::size_t t = 0; t < ds.size(); ++t) {
    const string who = "track " + to_string(t) + ": ";
    auto& stsd = f.stbl(int(t)).need("stsd");
    auto& avcc = stsd.need("avc1").need("avcC");
    u64 p = 0;
    auto get = [&](int n) {
      const u64 v = f.be(avcc, p, n);
      p += u64(n);
      return v;
    };
    auto eq = [&](const string& what, u64 got, u64 want) {
      if (got != want) throw Err("record:" + what, who + what + " is " + to_string(got) + " instead of " + to_string(want));
    };
    const auto& sps = m.sps[t];
    const auto& pps = m.pps[t];
    eq("version", get(1), ds[t].conf);
    const u64 prof = get(1), compat = get(1), level = get(1);
    if (sps.empty()) {
      eq("declared profile", prof, ds[t].profile);
      eq("declared compatibility", compat, ds[t].compat);
      eq("declared level", level, ds[t].level);
    } else if (sps[0].size() > 4) {
      eq("profile", prof, sps[0][1]);
      eq("compatibility", compat, sps[0][2]);
      eq("level", level, sps[0][3]);
    }
    eq("length size", get(1) & 3, 3);
    auto sets = [&](const char* what, u64 n, const vector<Bytes>& want) {
      eq(string("number of ") + what, n, want.size());
      for (auto& w : want) {
        eq(string("size of ") + what, get(2), w.size());
        const string got = f.str(avcc, p, w.size());
        if (got != ut::str(w)) throw Err(string("record:") + what, who + what + " is " + mc::hex(got, 40) + " instead of " + mc::hex(w, 40));
        p += w.size();
      }
    };
    sets("sequence parameter sets", get(1) & 31, sps);
    sets("picture parameter sets", get(1), pps);
    eq("length of the record", avcc.dsize(), p);
  }
}

void judge(mc::MC& m, const vector<Decl>& ds, const vector<Call>& cs, bool fast, u64 h) {
  const Model x = model(ds.size(), cs);
  const string d = text(cs, fast);
  m.state(h);
  m.trace();
  m.trans(cs.size());
  m.sample([&] { return d; });
  m.eval(true);
  Outcome o;
  const bool over = !x.refused && x.over();
  try {
    o = run(ds, cs, fast);
  } catch (const std::exception& e) {
    if (over) {
      m.count("streams with more than a record can hold, refused");
      m.outcome(mc::hash(e.what()));
      return;
    }
    m.fail("finish:throws", string("finishing the file throws ") + e.what(), d);
    return;
  }
  m.outcome(o.refused ? mc::hash(o.what) : mc::hash(o.file));
  if (over && m.prop == "P24") {
    if (!o.refused) m.fail("record:overflow", "a file is finished without an error although its configuration record cannot hold the parameter sets", d);
    else m.count("streams with more than a record can hold, refused");
    return;
  }
  if (o.refused != x.refused) {
    if (x.refused) m.fail("refuse:missing", "a stream that is not a sequence of supported units is accepted", d);
    else m.fail("refuse:wrong", "a valid stream is refused: " + o.what, d);
    return;
  }
  m.count(o.refused ? "refused streams" : "accepted streams");
  if (o.refused) return;
  try {
    StrSrc src{o.file};
    File<StrSrc> f(src);
    if (f.traks.size() != ds.size()) throw Err("structure:tracks", "number of tracks");
    if (m.prop == "P23") samples_ok(f, x);
    else record_ok(f, x, ds);
  } catch (const Err& e) {
    m.fail(e.key, e.what(), d);
  }
}

u64 id(const vector<Call>& cs, bool fast) {
  u64 h = fast;
  for (auto& c : cs) h = mc::mix(mc::mix(h, mc::hash(c.b)), u64(c.t) * 8 + c.key * 4 + c.ptr * 2 + c.term);
  return h;
}

const Bytes SC3 = {0, 0, 1}, SC4 = {0, 0, 0, 1};

// all strings over the alphabet, by increasing length
template <typename F>
void strings(const Bytes& alphabet, std::size_t maxlen, F f) {
  for (std::size_t n = 0; n <= maxlen; ++n)
    mc::product(vector<std::size_t>(n, alphabet.size()), [&](const vector<std::size_t>& d) {
      Bytes b(n);
      for (std::size_t i = 0; i < n; ++i) b[i] = alphabet[d[i]];
      f(b);
    });
}

// ---------------------------------------------------------------- P23
void scanner(mc::MC& m) {
  m.phase("scanner");
  struct A {
    Bytes a;
    std::size_t n;
  };
  const bool th = m.thorough;
  for (const A& al : {A{{0, 1, 0x65}, th ? 13U : 10U}, A{{0, 1, 0x65, 0x67, 2}, th ? 9U : 7U}}) {
    strings(al.a, al.n, [&](const Bytes& b) {
      if (!m.next()) return;
      m.state(mc::hash(b));
      m.eval(true);
      std::unique_ptr<u8[]> p(new u8[b.size()]);
      std::copy(b.begin(), b.end(), p.get());
      for (std::size_t s = 0; s <= b.size(); ++s) {
        vector<Unit> us;
        const bool ok = split(Bytes(b.begin() + static_cast<long>(s), b.end()), &us) && s + us[0].payload < b.size();
        bool got = true;
        tk::NalUnit nu{};
        try {
          nu = tk::find_next_nal_unit(p.get(), b.size(), s);
        } catch (const std::exception&) {
          got = false;
        }
        m.trans();
        auto d = [&] { return "scan " + mc::hex(b) + " from " + to_string(s); };
        m.sample(d);
        if (got != ok) {
          m.fail(ok ? "scan:refused" : "scan:accepted", ok ? "a unit is not found" : "something that is no unit is accepted", d());
          continue;
        }
        m.outcome(got ? mc::mix(mc::mix(nu.start, nu.end), nu.start_code_size * 256U + nu.header) : 0);
        if (!got) continue;
        const tk::NalUnit want{us[0].payload - us[0].begin, s, s + us[0].end, b[s + us[0].payload]};
        tk::NalUnit other = want;
        other.end += 1;
        if (!(nu == want) || nu == other) m.fail("scan:equal", "units are compared wrongly", d());
        if (nu.start != want.start || nu.end != want.end || nu.header != want.header || nu.start_code_size != want.start_code_size)
          m.fail("scan:unit", "unit [" + to_string(nu.start) + "," + to_string(nu.end) + ") code " + to_string(nu.start_code_size) + " header " + to_string(nu.header) + " instead of [" + to_string(want.start) + "," + to_string(want.end) + ") code " + to_string(want.start_code_size) + " header " + to_string(want.header), d());
      }
      m.trace();
    });
  }
}

void byte_streams(mc::MC& m) {
  m.phase("byte strings");
  const vector<Decl> one(1);
  const bool th = m.thorough;
  auto go = [&](const Bytes& b, u64 k) {
    if (!m.next()) return;
    const vector<Call> cs = {{0, b, k % 3 == 0, k % 2 == 0}};
    judge(m, one, cs, false, id(cs, false));
  };
  u64 k = 0;
  strings({0, 1, 0x65}, th ? 12 : 9, [&](const Bytes& b) { go(b, ++k); });
  for (auto& sc : {SC3, SC4})
    strings({0, 1, 0x65, 0x41, 0x67, 0x68, 6, 9}, th ? 6 : 5, [&](const Bytes& b) { go(ut::cat({sc, b}), ++k); });
  // every slice, then anything
  for (auto& sc : {SC3, SC4})
    strings({0, 1, 0x21, 0x66}, th ? 9 : 7, [&](const Bytes& b) { go(ut::cat({sc, {0x65}, b}), ++k); });
}

void headers(mc::MC& m) {
  m.phase("unit headers");
  const vector<Decl> one(1);
  for (unsigned h = 0; h < 256; ++h)
    for (int place = 0; place < 4; ++place)
      for (int len = 0; len < 3; ++len)
        for (int form = 0; form < 4; ++form)
          for (int next = 0; next < 2; ++next) {
            if (!m.next()) continue;
            Bytes u = {u8(h)};
            for (int i = 0; i < len; ++i) u.push_back(u8(0x80 + i));
            const auto& sc = form & 1 ? SC4 : SC3;
            const auto& other = form & 1 ? SC3 : SC4;
            const Bytes slice = ut::cat({other, {0x41, 0x9a}});
            Bytes b = ut::cat({sc, u});
            if (place & 1) b = ut::cat({slice, b});
            if (place & 2) b = ut::cat({b, slice});
            vector<Call> cs = {{0, b, (form & 2) != 0, (form & 2) == 0}};
            if (next) cs.push_back({0, slice, false, false});
            judge(m, one, cs, false, id(cs, false));
          }
}

const vector<Bytes>& units() {
  static const vector<Bytes> u = {
      {0x65},
      {0x41, 0x9a},
      {0x61, 0},
      {0x25, 0, 0},
      {0x02, 0, 0, 3, 1},
      {0x83, 1},
      {0x44, 0, 1},
      {6},
      {6, 5, 0xff, 0},
      {0x67, 0x42, 0xc0, 0x1f, 0xa0},
      {0x67, 0x4d, 0x40, 0x1e, 0xec, 0xa0},
      {0x68},
      {0x68, 0xce, 0x3c},
      {9, 0xf0},
  };
  return u;
}

// sequences of n units, every choice of start codes, of the calls they are split over, of key flags and of the form
void sequences(mc::MC& m, std::size_t n, bool all_keys) {
  m.phase("sequences of " + to_string(n) + " units");
  const vector<Decl> one(1);
  const std::size_t nu = units().size();
  mc::product(vector<std::size_t>(n, nu), [&](const vector<std::size_t>& d) {
    for (unsigned codes = 0; codes < (1U << n); ++codes)
      for (unsigned cut = 0; cut < (1U << (n - 1)); ++cut) {
        unsigned ncalls = 1;
        for (unsigned i = 0; i + 1 < n; ++i) ncalls += (cut >> i) & 1;
        for (unsigned keys = 0; keys < (1U << ncalls); ++keys) {
          if (!all_keys && keys != (codes ^ cut) % (1U << ncalls)) continue;
          if (!m.next()) continue;
          vector<Call> cs;
          for (unsigned i = 0; i < n; ++i) {
            if (i == 0 || ((cut >> (i - 1)) & 1)) {
              const unsigned c = unsigned(cs.size());
              cs.push_back({0, {}, ((keys >> c) & 1) != 0, ((codes + c) & 1) != 0});
            }
            cs.back().b = ut::cat({cs.back().b, (codes >> i) & 1 ? SC4 : SC3, units()[d[i]]});
          }
          judge(m, one, cs, false, id(cs, false));
        }
      }
  });
}

void slice_lengths(mc::MC& m) {
  m.phase("slice lengths");
  const vector<Decl> one(1);
  vector<std::size_t> sizes;
  for (std::size_t i = 1; i <= (m.thorough ? 2000U : 600U); ++i) sizes.push_back(i);
  for (std::size_t p : {12, 14, 15, 16, 17, 20, 24}) {
    const std::size_t c = std::size_t(1) << p;
    for (std::size_t s : {c - 5, c - 4, c - 3, c - 2, c - 1, c, c + 1, c + 2}) {
      if (p == 24 && !m.thorough && s != c && s != c - 1) continue;
      sizes.push_back(s);
    }
  }
  if (m.thorough) sizes.push_back((std::size_t(1) << 25) + 3);
  for (auto s : sizes)
    for (int form = 0; form < (s > 100000 ? 2 : 8); ++form) {
      if (!m.next()) continue;
      Bytes u = payload(0, s, s);
      u[0] = 0x65;
      vector<Call> cs;
      Bytes b = ut::cat({form & 1 ? SC4 : SC3, u});
      if (form & 2) b = ut::cat({b, SC3, {0x41, 7, 0, 0}});
      cs.push_back({0, b, true, (form & 4) != 0});
      cs.push_back({0, ut::cat({SC4, {0x41, 9}}), false, false});
      judge(m, one, cs, false, mc::mix(s, u64(form) + 77));
      m.beat();
    }
}

void many_units(mc::MC& m) {
  m.phase("many units in a call");
  const vector<Decl> one(1);
  for (unsigned n = 1; n <= (m.thorough ? 700U : 260U); ++n)
    for (int form = 0; form < 4; ++form) {
      if (!m.next()) continue;
      Bytes b;
      for (unsigned i = 0; i < n; ++i) {
        auto add = [&](const Bytes& u) { b = ut::cat({b, (i + unsigned(form)) % 3 == 0 ? SC4 : SC3, u}); };
        if ((form & 1) && i % 5 == 0) {
          add(SPS);
          add(PPS);
          add({6, 1});
        }
        add({u8(i % 7 ? 0x41 : 0x65), u8(i), u8(i >> 8), 0x55});
      }
      vector<Call> cs = {{0, b, true, (form & 2) != 0}, {0, ut::cat({SC3, {0x41}}), false, false}};
      judge(m, one, cs, false, mc::mix(n, u64(form) + 1000));
    }
}

// two tracks of one file whose calls interleave, with chunks ended in between, on both writers
void two_tracks(mc::MC& m, std::size_t n) {
  m.phase("two tracks");
  const vector<Decl> two = {{1, 0x42, 0xc0, 31}, {1, 0x4d, 0, 40}};
  const Bytes s1 = units()[9], s2 = units()[10];
  const vector<Call> al = {
      {0, ut::cat({SC4, s1, SC3, PPS, SC3, {0x65, 1}}), true, false},
      {0, ut::cat({SC4, {0x41, 2}, SC4, {0x41, 3, 0}}), false, true},
      {1, ut::cat({SC3, s2, SC3, {0x68, 0xee}, SC4, {0x65, 4}}), true, true},
      {1, ut::cat({SC3, {6, 9}, SC3, {0x61, 5, 6}}), false, false},
      {1, ut::cat({SC4, s1}), true, false},
      {0, ut::cat({SC4, s2, SC4, {0x68, 0xee}}), false, false},
      {0, {}, false, false, true},
      {1, {}, false, false, true},
  };
  for (std::size_t k = 0; k <= n; ++k)
    mc::product(vector<std::size_t>(k, al.size()), [&](const vector<std::size_t>& d) {
      for (int fast = 0; fast < 2; ++fast) {
        if (fast && k + 1 > n) continue;
        if (!m.next()) continue;
        vector<Call> cs;
        for (auto i : d) {
          // an open chunk is ended before another track's samples are added
          if (!cs.empty() && cs.back().t != al[i].t && !cs.back().term) cs.push_back({cs.back().t, {}, false, false, true});
          cs.push_back(al[i]);
        }
        judge(m, two, cs, fast != 0, id(cs, fast != 0));
      }
    });
}

// ---------------------------------------------------------------- P24
void set_sequences(mc::MC& m, std::size_t n) {
  m.phase("parameter set histories");
  const vector<Bytes> al = {
      units()[9],
      units()[10],
      {0x67, 0x42, 0xc0, 0x1f, 0xa0, 0},        // the first one with a byte more
      {0x27, 0x42, 0xc0, 0x1f, 0xa0},           // ... with another header
      {0x68, 0xce},
      {0x68, 0xce, 0x3c},
      {0x68, 0xcf},
      {0x65, 0x88},
      {6, 5},
  };
  for (std::size_t k = 0; k <= n; ++k)
    mc::product(vector<std::size_t>(k, al.size()), [&](const vector<std::size_t>& d) {
      for (int mode = 0; mode < 3; ++mode) {  // one call, a call per unit, two units per call
        if (mode && k < std::size_t(mode) + 1) continue;
        if (!m.next()) continue;
        vector<Call> cs;
        for (std::size_t i = 0; i < k; ++i) {
          if (i == 0 || mode == 1 || (mode == 2 && i % 2 == 0)) cs.push_back({0, {}, i == 0, i % 2 == 1});
          // start codes of 4 bytes before a unit whose predecessor ends with a zero, as an encoder does
          cs.back().b = ut::cat({cs.back().b, i % 2 ? SC3 : SC4, al[d[i]]});
        }
        const vector<Decl> one = {k % 2 ? Decl{1, 0x64, 0, 51} : Decl{}};
        judge(m, one, cs, false, id(cs, false));
      }
    });
}

void declared(mc::MC& m) {
  m.phase("declared parameters");
  for (int which = 0; which < 4; ++which)
    for (unsigned v = 0; v < 256; ++v)
      for (int sps = 0; sps < 3; ++sps) {
        if (!m.next()) continue;
        Decl d;
        (which == 0 ? d.conf : which == 1 ? d.profile : which == 2 ? d.compat : d.level) = u8(v);
        vector<Call> cs;
        if (sps == 1) cs.push_back({0, ut::cat({SC4, units()[10], SC4, PPS}), true, false});
        if (sps == 2) cs.push_back({0, ut::cat({SC4, PPS}), true, true});
        cs.push_back({0, ut::cat({SC3, {0x65, 1}}), true, false});
        judge(m, {d}, cs, false, mc::mix(u64(which) * 256 + v, u64(sps) + 5));
      }
  // ... and those of the sequence parameter set
  m.phase("parameters of the set");
  for (int which = 1; which < 4; ++which)
    for (unsigned v = 0; v < 256; ++v)
      for (int two = 0; two < 2; ++two) {
        if (!m.next()) continue;
        Bytes s = units()[9];
        s[which] = u8(v);
        Bytes o = units()[10];
        vector<Call> cs = {{0, ut::cat({SC4, s, SC4, PPS, SC3, {0x65, 1}}), true, false}};
        if (two) cs.push_back({0, ut::cat({SC4, o, SC4, s, SC4, PPS, SC3, {0x65, 1}}), true, true});
        judge(m, {Decl{1, 0x58, 0x3c, 10}}, cs, false, mc::mix(u64(which) * 256 + v, u64(two) + 55));
      }
}

void repeated(mc::MC& m) {
  m.phase("repetitions");
  for (unsigned n = 1; n <= (m.thorough ? 1200U : 400U); ++n)
    for (int form = 0; form < 4; ++form) {
      if (!m.next()) continue;
      vector<Call> cs;
      for (unsigned i = 0; i < n; ++i) {
        const Bytes& s = (form & 1) && i % 3 == 1 ? units()[9] : units()[10];
        const Bytes& p = (form & 1) && i % 4 == 3 ? units()[11] : units()[12];
        const Bytes b = ut::cat({SC4, s, SC3, p, SC3, {0x65, u8(i), 9}});
        if (cs.empty() || !(form & 2)) cs.push_back({0, b, true, i % 2 == 0});
        else cs.back().b = ut::cat({cs.back().b, b});
      }
      judge(m, {Decl{}}, cs, false, mc::mix(n, u64(form) + 555));
    }
}

void distinct(mc::MC& m) {
  m.phase("distinct sets");
  for (unsigned ns = 0; ns <= (m.thorough ? 70U : 34U); ++ns)
    for (unsigned np = 0; np <= (m.thorough ? 530U : 260U); ++np) {
      if (!m.thorough && np > 8 && np % 31 != 0 && np < 252 && ns > 2) continue;
      if ((ns > 34 || np > 260) && (ns > 1 && np > 1 && ns % 32 != 0 && np % 256 != 0)) continue;
      for (int again = 0; again < 2; ++again) {
        if (!m.next()) continue;
        Bytes b;
        auto set = [&](int type, unsigned i) {
          // distinct in the last byte, in the length, or in the first payload byte
          Bytes s = {u8(type), 0x42, 0xc0, 0x1f, 0xa0, 0x11};
          if (i % 3 == 0) s.back() = u8(0x20 + i / 3);
          else if (i % 3 == 1) s.insert(s.end(), 1 + i / 3, 0x77);
          else s[4] = u8(0x10 + i / 3);
          return s;
        };
        for (int r = 0; r <= again; ++r) {
          for (unsigned i = 0; i < ns; ++i) b = ut::cat({b, SC3, set(0x67, r ? ns - 1 - i : i)});
          for (unsigned i = 0; i < np; ++i) b = ut::cat({b, SC3, set(0x68, r ? np - 1 - i : i)});
        }
        b = ut::cat({b, SC4, {0x65, 3}});
        const vector<Call> cs = {{0, b, true, again != 0}};
        judge(m, {Decl{}}, cs, false, mc::mix(ns * 256 + np, u64(again) + 99));
      }
    }
}

void set_lengths(mc::MC& m) {
  m.phase("set lengths");
  vector<std::size_t> sizes;
  for (std::size_t i = 1; i <= (m.thorough ? 1000U : 300U); ++i) sizes.push_back(i);
  for (std::size_t i : {511, 512, 513, 4095, 4096, 32767, 32768, 65279, 65280, 65281, 65534, 65535, 65536, 65537, 65538, 65792, 70000, 131071, 131072, 131077}) sizes.push_back(i);
  for (auto s : sizes)
    for (int form = 0; form < 4; ++form) {
      if (!m.next()) continue;
      Bytes u = payload(1, s, s);
      u[0] = form & 1 ? 0x67 : 0x68;
      const Bytes& other = form & 1 ? PPS : units()[9];
      vector<Call> cs;
      cs.push_back({0, ut::cat({SC4, u, SC3, other, SC3, {0x65, 1}}), true, (form & 2) != 0});
      if (form & 2) cs.push_back({0, ut::cat({SC4, other, SC3, u}), true, false});
      judge(m, {Decl{}}, cs, false, mc::mix(s, u64(form) + 4444));
    }
  // a set that ends where the data ends, or in zeros, or holds an emulation prevention byte
  m.phase("set contents");
  for (auto& sc : {SC3, SC4})
    for (int type : {0x67, 0x68})
      strings({0, 1, 3, 0x80}, m.thorough ? 7 : 5, [&](const Bytes& b) {
        for (int last = 0; last < 2; ++last) {
          if (!m.next()) continue;
          Bytes u = ut::cat({{u8(type), 0x42, 0xc0, 0x1f, 0xa0}, b});
          Bytes d = ut::cat({sc, u});
          if (!last) d = ut::cat({d, SC4, {0x65, 0x80}});
          const vector<Call> cs = {{0, d, true, last == 0}};
          judge(m, {Decl{}}, cs, false, id(cs, false));
        }
      });
}

}  // namespace

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  const bool th = m.thorough;
  if (m.prop == "P23") {
    headers(m);
    scanner(m);
    byte_streams(m);
    for (std::size_t n = 1; n <= 3; ++n) sequences(m, n, n < 3 || th);
    if (th) sequences(m, 4, false);
    slice_lengths(m);
    many_units(m);
    two_tracks(m, th ? 6 : 4);
  } else if (m.prop == "P24") {
    declared(m);
    set_sequences(m, th ? 6 : 4);
    repeated(m);
    distinct(m);
    set_lengths(m);
    two_tracks(m, th ? 6 : 4);
  } else {
    return 3;
  }
  return m.finish();
}
