// P01/P02 samples, P03 timing, P04 key samples and groups, P05 structure, P06 headers, P07 beyond 4 GiB,
// P08 determinism and independence, P21 output failures, P22 intermediate file.
#define MX_CLOCK
#include "mux.hpp"
#include "imf.hpp"

#include <spdlog/sinks/null_sink.h>

#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>
#include <functional>

using namespace mx;

// ---------------------------------------------------------------- running histories
static u64 hh(const string& s) { return mc::hash(s); }

enum What { SAMPLES = 1, TIMING = 2, KEYS = 4, STRUCT = 8, HEADERS = 16 };

static void judge(mc::MC& m, const Hist& given, int what) {
  const Hist h = effective(given);
  MemBuf b;
  std::ostream os(&b);
  try {
    Muxer mu(given, os);
    mu.all();
    m.trans(mu.steps());
    m.trace();
    m.state(hh(b.s));
    if (mu.writer()->getMvhdTimescale() != h.mvts || mu.writer()->getTimeFromEpoch() != u64(g_clock) + 2082844800) throw Err("headers:writer-getters", "the writer's timescale or time is not the declared one");
    for (std::size_t i = 0; i < h.tr.size(); ++i)
      if (mu.at(int(i)).getTimescale() != h.tr[i].timescale()) throw Err("headers:track-getter", "track " + to_string(i) + " has timescale " + to_string(mu.at(int(i)).getTimescale()));
    File<StrSrc> f(StrSrc{b.s});
    const auto e = expect(h);
    u64 n = 0;
    for (auto& x : e) n += x.size.size();
    if (what & SAMPLES) check_samples(f, h, e);
    if (what & TIMING) check_timing(f, h, e);
    if (what & KEYS) check_keys(f, h, e);
    if (what & STRUCT) check_structure(f, h, e);
    if (what & HEADERS) {
      u32 mx = 0;
      for (std::size_t i = 0; i < h.tr.size(); ++i)
        if (!h.tr[i].id || h.order.empty() || std::count(h.order.begin(), h.order.end(), int(i))) mx = std::max(mx, mu.ids[i]);
      check_headers(f, h, mu.ids, mx, u64(g_clock));
    }
    m.eval(n > 0);
    m.sample([&] { return given.str(); });
    m.outcome(mc::mix(n, b.s.size()));
  } catch (const Err& e) {
    m.fail(e.key, e.what(), given.str());
  } catch (const std::exception& e) {
    m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), given.str());
  }
}

static Op media(int t, i64 v) {
  Op o;
  o.t = t;
  o.set = 1;
  o.ts = u64(v);
  return o;
}
static Op obus(int t, u64 size) {
  Op o;
  o.t = t;
  o.set = 2;
  o.size = size;
  return o;
}
// every history with up to two of the settings at all places of the base one
static void settings(const vector<Op>& base, const vector<Op>& sets, const std::function<void(const vector<Op>&)>& f) {
  for (std::size_t i = 0; i <= base.size(); ++i)
    for (auto& a : sets) {
      vector<Op> w = base;
      w.insert(w.begin() + long(i), a);
      f(w);
      for (std::size_t j = i; j <= base.size(); ++j)
        for (auto& b : sets) {
          vector<Op> v = w;
          v.insert(v.begin() + long(j) + 1, b);
          f(v);
        }
    }
}
static Op add(int t, u64 size, bool key = false, bool ptr = false) {
  Op o;
  o.t = t;
  o.size = size;
  o.key = key;
  o.ptr = ptr;
  return o;
}
static Op term(int t) {
  Op o;
  o.t = t;
  o.term = true;
  return o;
}
// Ends the open chunk of every other track before a track's sample, as callers have to; times are counted up per track.
static void normalize(Hist& h, u64 dt = 10) {
  vector<Op> r;
  vector<bool> open(h.tr.size(), false);
  vector<u64> n(h.tr.size(), 0);
  for (auto o : h.ops) {
    if (!o.term) {
      for (std::size_t t = 0; t < open.size(); ++t)
        if (open[t] && int(t) != o.t) {
          r.push_back(term(int(t)));
          open[t] = false;
        }
      open[o.t] = true;
      o.ts = dt * n[o.t]++;
    } else {
      open[o.t] = false;
    }
    r.push_back(o);
  }
  h.ops = r;
}
static TSpec spec(int k, float dur = 1) {
  TSpec t;
  t.k = Kind(k);
  t.dur = dur;
  return t;
}
// all words over an alphabet up to a length
static void words(const vector<Op>& alpha, int depth, const std::function<void(const vector<Op>&)>& f) {
  vector<Op> w;
  std::function<void()> rec = [&] {
    f(w);
    if (int(w.size()) == depth) return;
    for (auto& a : alpha) {
      w.push_back(a);
      rec();
      w.pop_back();
    }
  };
  rec();
}

static Hist hist(bool fast, const vector<int>& kinds, const vector<Op>& ops = {}) {
  Hist h;
  h.fast = fast;
  for (int k : kinds) h.tr.push_back(spec(k));
  h.ops = ops;
  normalize(h);
  return h;
}

// ---------------------------------------------------------------- P01 / P02
static void samples(mc::MC& m, bool fast) {
  const bool th = m.thorough;
  auto go = [&](const vector<int>& kinds, const vector<Op>& w) {
    if (!m.next()) return;
    judge(m, hist(fast, kinds, w), SAMPLES);
  };
  // one track
  for (int k = 0; k < NKIND; ++k)
    words({add(0, 0), add(0, 1, true), add(0, 3), term(0)}, th ? 8 : 6, [&](const vector<Op>& w) { go({k}, w); });
  // two tracks: every pair of kinds shallow, two pairs deep
  const vector<Op> two = {add(0, 1, true), add(0, 3), term(0), add(1, 2), term(1)};
  for (int a = 0; a < NKIND; ++a)
    for (int b = 0; b < NKIND; ++b) {
      const bool deep = (a == VP9 && b == OPUS) || (a == H264 && b == AAC) || (a == AAC && b == AV1);
      words(two, deep ? (th ? 8 : 6) : (th ? 5 : 4), [&](const vector<Op>& w) { go({a, b}, w); });
    }
  // three tracks, sizes 1, 2, 3, so that no two samples can be taken for each other
  const vector<Op> three = {add(0, 1), add(1, 2), add(2, 3), term(0), term(1), term(2)};
  for (auto& k : vector<vector<int>>{{VP8, OPUS, MP3}, {AAC, H264, AV1}}) words(three, th ? 7 : 5, [&](const vector<Op>& w) { go(k, w); });
  for (int a = 0; a < NKIND; ++a)
    for (int b = 0; b < NKIND; ++b)
      for (int c = 0; c < NKIND; ++c)
        for (auto& w : vector<vector<Op>>{{add(0, 1), add(1, 2), add(2, 3)}, {add(2, 3), add(2, 3), add(0, 5), add(1, 2), add(0, 0)}, {add(1, 7)}})
          go({a, b, c}, w);
  // sizes around buffer limits
  const vector<u64> sizes = {0, 1, 2, 4095, 4096, 4097, 65535, 65536, 70000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1};
  for (int k : {VP9, H264, AAC})
    for (u64 a : sizes)
      for (u64 b : sizes) {
        go({k}, {add(0, a), add(0, b, false, true)});
        go({k}, {add(0, a), term(0), add(0, b)});
        go({k, OPUS}, {add(0, a), add(1, b), add(0, 1)});
        if (th)
          for (u64 c : sizes) {
            if (a + b + c > (1 << 21)) continue;
            go({k, OPUS}, {add(1, a), add(0, b), add(1, c)});
            go({k}, {add(0, a), add(0, b), term(0), add(0, c)});
          }
      }
  // every small size, and sizes far beyond any buffer
  for (u64 a = 0; a <= (th ? 2100u : 600u); ++a) go({a & 1 ? VP9 : OPUS, AV1}, {add(0, a), add(0, 600 - a % 600), add(1, a), add(1, 1, true, true)});
  for (int sh = 21; sh <= (th ? 27 : 24); ++sh)
    for (i64 d : {-1, 0, 1}) {
      const u64 a = (u64(1) << sh) + u64(d);
      go({VP9}, {add(0, a, true), add(0, 3)});
      go({AAC, VP8}, {add(0, 5), add(0, a, false, true), add(1, 7), add(0, 1)});
      go({H264, MP3}, {add(1, 2), add(0, 2), term(0), add(0, a), term(0), add(1, 4)});
    }
  // vector and pointer form, every combination
  for (int k = 0; k < NKIND; ++k)
    for (unsigned mask = 0; mask < 32; ++mask) {
      vector<Op> w;
      for (int i = 0; i < 5; ++i) w.push_back(add(0, 1 + i, i == 0, (mask >> i) & 1));
      w.insert(w.begin() + 2, term(0));
      go({k}, w);
    }
  // file type settings move the media data
  for (int ft = 1; ft <= 2; ++ft)
    for (int k = 0; k < NKIND; ++k)
      words(two, 3, [&](const vector<Op>& w) {
        if (!m.next()) return;
        Hist h = hist(fast, {k, VP8}, w);
        h.ftyp = ft;
        judge(m, h, SAMPLES);
      });
  // chunks with numbers of samples around the field widths, in every order
  for (int k : {VP9, OPUS}) {
    vector<u64> ns = {0, 1, 2, 3, 254, 255, 256, 257, 258, 513};
    if (th || k == OPUS) ns.insert(ns.end(), {65535, 65536, 65537});
    for (u64 a : ns)
      for (u64 b : ns)
        for (u64 c : th ? ns : vector<u64>{0, 1, 2, 256, 257}) {
          if (a + b + c > (th ? 200000u : 140000u)) continue;
          if (!m.next()) continue;
          vector<Op> w;
          for (u64 n : {a, b, c}) {
            for (u64 i = 0; i < n; ++i) w.push_back(add(0, i % 4 ? 1 : 2, i % 100 == 0));
            if (n > 0) w.push_back(term(0));
          }
          judge(m, hist(fast, {k}, w), SAMPLES);
        }
  }
  // order in which four tracks are handed over
  {
    vector<int> p = {0, 1, 2, 3};
    do {
      for (int v = 0; v < 6; ++v) {
        if (!m.next()) continue;
        vector<Op> w;
        for (int i = 0; i < 8; ++i) w.push_back(add((i * (v + 1) + i / 4) % 4, 1 + i, i % 3 == 0));
        Hist h = hist(fast, {H264, OPUS, VP9, AAC}, w);
        h.order = p;
        judge(m, h, SAMPLES);
      }
    } while (std::next_permutation(p.begin(), p.end()));
  }
  // subsets of the tracks handed over empty, many tracks
  for (int n : {0, 1, 2, 5, 20, 100}) {
    vector<int> kinds;
    vector<Op> w;
    for (int i = 0; i < n; ++i) kinds.push_back(i % NKIND);
    for (int r = 0; r < 3; ++r)
      for (int i = 0; i < n; ++i)
        if (i % 4) w.push_back(add(i, 1 + (i + r) % 5, r == 0));
    go(kinds, w);
  }
  // long histories: many samples per chunk, many chunks, interleaved tracks
  for (u64 n : th ? vector<u64>{255, 256, 257, 1023, 1024, 1025, 4097, 32768, 65535, 65536, 65537, 70001, 200003} : vector<u64>{255, 256, 257, 1025, 8191, 65535, 65536, 66001})
    for (int pat = 0; pat < 4; ++pat) {
      if (!m.next()) continue;
      Hist h;
      h.fast = fast;
      h.tr = {spec(pat % 2 ? H264 : AAC, 1000), spec(VP8, 1000)};
      for (u64 i = 0; i < n; ++i) {
        h.ops.push_back(add(0, 1 + i % 3, i % 30 == 0));
        if (pat == 1 || (pat == 2 && i % 255 == 254)) h.ops.push_back(term(0));
        if (pat == 3 && i % 7 == 6) h.ops.push_back(add(1, 2));
      }
      normalize(h, 1);
      judge(m, h, SAMPLES);
    }
}

// ---------------------------------------------------------------- P03
static void timing(mc::MC& m) {
  const bool th = m.thorough;
  // sample durations: every sequence over an alphabet, the first timestamp placed so that the last duration is as chosen
  const vector<u64> dts = {0, 1, 40, 0x7fffffff, 0xffffffff};
  const vector<u64> lasts = {0, 1, 40, 0xfffffffe, 0xffffffff};
  struct D {
    float dur;
    u32 ts;
  };
  const vector<D> ds = {{1, 1000}, {3601, 90000}, {1 << 20, 90000}, {1 << 30, 48000}, {2.5, 48000}, {65536, 0xffffffff}};
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (auto& d : ds) {
        if (k == OPUS && d.ts != 48000) continue;
        for (int n = 0; n <= (th ? 4 : 3); ++n)
          mc::product(vector<std::size_t>(n, dts.size()), [&](const vector<std::size_t>& w) {
            for (u64 L : lasts)
              for (int chunks = 0; chunks < 2; ++chunks) {
                const u64 total = ticks(d.dur, d.ts);
                u64 sum = L;
                for (auto i : w) sum += dts[i];
                if (sum > total) continue;
                if (!m.next()) continue;
                Hist h = hist(fast, {k});
                h.tr[0].ts = d.ts;
                h.tr[0].dur = d.dur;
                u64 t = total - sum;
                for (int i = 0; i <= n; ++i) {
                  h.ops.push_back(add(0, 1 + i, i == 0));
                  h.ops.back().ts = t;
                  if (i < n) t += dts[w[i]];
                  if (chunks) h.ops.push_back(term(0));
                }
                judge(m, h, TIMING);
              }
          });
      }
  // media times set at every point, once and twice, for one or both tracks
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (i64 declared : {i64(0), i64(312), i64(1) << 40}) {
        Hist h = hist(fast, {k, VP9}, {add(0, 2, true), add(1, 1), add(0, 1)});
        h.tr[0].mt = declared;
        settings(h.ops, {media(0, 0), media(0, -1), media(0, 312), media(1, 7), media(0, 0x80000000LL), media(1, -0x80000001LL), media(0, INT64_MIN)}, [&](const vector<Op>& w) {
          if (!m.next()) return;
          Hist g = h;
          g.ops = w;
          judge(m, g, TIMING);
        });
      }
  // no samples at all; durations, timescales, media times, clocks: every pair of deviations
  const vector<float> durs = {1, 0, 2.5, 0.1f, 0.7f, 3601, 100000, 65535, 16777216, 1 << 30, 0.125f};
  const vector<u32> tss = {1000, 1, 600, 48000, 90000, 1000000, 0xffffffff};
  const vector<i64> mts = {0, 1, -1, 312, 0x7fffffff, 0x80000000LL, -0x80000000LL, -0x80000001LL, 1LL << 40, INT64_MAX, INT64_MIN};
  const vector<i64> clocks = {1700000000, 0, 0xffffffffLL - 2082844800, 0x100000000LL - 2082844800, 0x7fffffff, 0x200000000LL};
  auto near = [](float d, u32 ts) {  // the product is a whole number, but for the rounding of d
    const long double v = static_cast<long double>(d) * ts;
    const long double r = static_cast<long double>(static_cast<u64>(v + 0.5L));
    return v - r < 0.05L && r - v < 0.05L;
  };
  mc::pairwise({2, NKIND, durs.size(), tss.size(), durs.size(), tss.size(), mts.size(), clocks.size(), 3, 2}, [&](const vector<std::size_t>& p) {
    if (!m.next()) return;
    TSpec t = spec(int(p[1]), durs[p[2]]);
    t.ts = tss[p[3]];
    t.mt = mts[p[6]];
    const u32 mv = tss[p[5]];
    const float md = durs[p[4]];
    for (auto [d, s] : vector<std::pair<float, u32>>{{t.dur, t.timescale()}, {t.dur, mv}, {md, mv}})
      if (!near(d, s)) return;
    Hist h;
    h.fast = p[0];
    h.tr = {t};
    if (p[9]) h.tr.insert(h.tr.begin(), spec(OPUS, 2));
    h.dur = md;
    h.mvts = mv;
    const u64 total = ticks(t.dur, t.timescale());
    const u64 first = total > 0xffffffff ? total - 0xffffffff : 0;
    const int me = p[9] ? 1 : 0;
    for (std::size_t i = 0; i < p[8]; ++i) {
      h.ops.push_back(add(me, 1));
      h.ops.back().ts = first + (total > first ? i * std::min<u64>(total - first, 20) : 0);
    }
    g_clock = clocks[p[7]];
    judge(m, h, TIMING);
    g_clock = 1700000000;
  });
  // the media time set later wins
  for (int fast = 0; fast < 2; ++fast)
    for (i64 mt : mts) {
      if (!m.next()) continue;
      Hist h = hist(fast, {VP9, OPUS}, {add(0, 1), add(1, 1)});
      h.tr[1].mt = mt;
      judge(m, h, TIMING);
    }
  // two tracks with times of their own, interleaved
  for (int fast = 0; fast < 2; ++fast)
    for (int a = 0; a < NKIND; ++a)
      for (int b = 0; b < NKIND; ++b)
        for (unsigned mask = 0; mask < (th ? 256u : 64u); ++mask) {
          if (!m.next()) continue;
          Hist h = hist(fast, {a, b});
          h.tr[0].dur = 10;
          h.tr[1].dur = 10;
          u64 t[2] = {0, 5};
          for (int i = 0; i < (th ? 8 : 6); ++i) {
            const int w = (mask >> i) & 1;
            if (i && w != int((mask >> (i - 1)) & 1)) h.ops.push_back(term(1 - w));
            h.ops.push_back(add(w, 2));
            h.ops.back().ts = t[w];
            t[w] += w ? 960 : 33 + i % 2;
          }
          judge(m, h, TIMING);
        }
  // long histories with runs of equal and of alternating durations
  for (int fast = 0; fast < 2; ++fast)
    for (u64 n : {65535u, 65536u, 65537u, 70000u})
      for (int pat = 0; pat < 3; ++pat) {
        if (!m.next()) continue;
        Hist h = hist(fast, {pat == 1 ? AAC : VP8});
        h.tr[0].dur = 10000;
        u64 t = 3;
        for (u64 i = 0; i < n; ++i) {
          h.ops.push_back(add(0, 1));
          h.ops.back().ts = t;
          t += pat == 0 ? 40 : pat == 1 ? 33 + i % 3 : 33 + (i / 40000);
        }
        judge(m, h, TIMING);
      }
}

// ---------------------------------------------------------------- P04
static void keys(mc::MC& m) {
  const bool th = m.thorough;
  for (int fast = 0; fast < 2; ++fast) {
    for (int k = 0; k < NKIND; ++k)
      words({add(0, 1, true), add(0, 1, false), term(0)}, th ? 8 : 7, [&](const vector<Op>& w) {
        if (!m.next()) return;
        judge(m, hist(fast, {k}, w), KEYS);
      });
    for (int a = 0; a < NKIND; ++a)
      for (int b = 0; b < NKIND; ++b)
        words({add(0, 1, true), add(0, 2, false), add(1, 3, true), add(1, 0, false)}, th ? 6 : 4, [&](const vector<Op>& w) {
          if (!m.next()) return;
          judge(m, hist(fast, {a, b}, w), KEYS);
        });
    for (int k = 0; k < NKIND; ++k)
      for (u64 n : {255u, 256u, 65535u, 65536u, 66000u})
        for (u64 every : {1u, 2u, 300u}) {
          if (!m.next()) continue;
          Hist h;
          h.fast = fast;
          h.tr = {spec(k, 1000)};
          for (u64 i = 0; i < n; ++i) h.ops.push_back(add(0, 1, i % every == every - 1, true));
          normalize(h, 1);
          judge(m, h, KEYS);
        }
    for (int roll : {-4, -1, 0, 1, 2, 255, 256, 32767, -32768, -257})
      for (int n : {0, 1, 5}) {
        if (!m.next()) continue;
        Hist h = hist(fast, {VP8, OPUS, AAC, MP3});
        h.tr[1].roll = static_cast<std::int16_t>(roll);
        for (int i = 0; i < n; ++i)
          for (int t = 0; t < 4; ++t) h.ops.push_back(add(t, 1, true));
        normalize(h);
        judge(m, h, KEYS);
      }
    // key flags with parameter sets in the stream
    words({add(0, 1, true), add(0, 1, false), term(0)}, 5, [&](const vector<Op>& w) {
      if (!m.next()) return;
      Hist h = hist(fast, {H264}, w);
      h.tr[0].ps = true;
      judge(m, h, KEYS);
    });
  }
}

// ---------------------------------------------------------------- P05
static void structure(mc::MC& m) {
  vector<vector<int>> sets = {{}};
  for (int a = 0; a < NKIND; ++a) {
    sets.push_back({a});
    for (int b = 0; b < NKIND; ++b) {
      sets.push_back({a, b});
      for (int c = 0; c < NKIND; ++c) {
        sets.push_back({a, b, c});
        if (m.thorough)
          for (int d = 0; d < NKIND; ++d) sets.push_back({a, b, c, d});
      }
    }
  }
  sets.push_back({0, 1, 2, 3, 4, 5, 6});
  sets.push_back({6, 5, 4, 3, 2, 1, 0, 0, 1, 2, 3});
  for (auto& s : sets)
    for (int fast = 0; fast < 2; ++fast)
      for (int ft = 0; ft < 3; ++ft)
        for (int pat = 0; pat < 6; ++pat) {
          if (!m.next()) continue;
          Hist h = hist(fast, s);
          h.ftyp = ft;
          for (auto& t : h.tr) t.ps = pat >= 3;
          const int n = int(s.size());
          for (int r = 0; r < pat && pat < 4; ++r)
            for (int t = 0; t < n; ++t) h.ops.push_back(add(t, std::size_t((r * 3 + t) % 5), r == 0));
          if (pat == 4)
            for (int t = 0; t < n; t += 2) h.ops.push_back(add(t, 4, true));
          if (pat == 5)
            for (int t = n - 1; t >= 0; --t)
              for (int r = 0; r < 6; ++r) {
                h.ops.push_back(add(t, 1 + r, r % 2));
                if (r % 3) h.ops.push_back(term(t));
              }
          normalize(h);
          judge(m, h, STRUCT);
        }
  // sizes and versions of the variable parts: parameters that change them
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      mc::pairwise({4, 4, 4, 4, 5}, [&](const vector<std::size_t>& p) {
        if (!m.next()) return;
        Hist h = hist(fast, {k, VP9});
        auto& t = h.tr[0];
        t.obus.assign(vector<u64>{6, 0, 1, 300}[p[0]], 0x5a);
        t.mt = vector<i64>{0, -1, 0x80000000LL, 1LL << 40}[p[1]];
        t.ts = vector<u32>{1000, 48000, 96000, 0xffffffff}[p[2]];
        t.dur = vector<float>{1, 16, 1 << 20, 1 << 30}[p[3]];
        g_clock = vector<i64>{1700000000, 0, 0xffffffffLL - 2082844800, 0x100000000LL - 2082844800, 0x200000000LL}[p[4]];
        h.ops = {add(0, 3, true), add(1, 2, true), add(0, 1)};
        normalize(h, 0);
        const u64 total = ticks(t.dur, t.timescale());  // what the last sample lasts has to fit
        for (auto& o : h.ops)
          if (o.t == 0 && total > 0xffffffff) o.ts = total - 0xffffffff;
        judge(m, h, STRUCT);
        g_clock = 1700000000;
      });
  // long
  for (int fast = 0; fast < 2; ++fast)
    for (int k : {VP9, AAC})
      for (u64 n : {300u, 65536u, 70000u}) {
        if (!m.next()) continue;
        Hist h;
        h.fast = fast;
        h.tr = {spec(k, 1000), spec(OPUS, 1000)};
        for (u64 i = 0; i < n; ++i) {
          h.ops.push_back(add(0, i % 4, i % 3 == 0));
          if (i % 5 == 0) h.ops.push_back(add(1, 2));
        }
        normalize(h, 1);
        judge(m, h, STRUCT);
      }
}

// ---------------------------------------------------------------- P06
static void headers(mc::MC& m) {
  const vector<u32> wh = {640, 0, 1, 255, 256, 32767, 32768, 65535};
  const vector<u32> br = {250000, 0, 1, 0xffff, 0x10000, 0xffffffff};
  const vector<u32> buf = {768, 0, 255, 256, 0xffff, 0x10000, 0xffffff};
  const vector<u32> tss = {1000, 1, 7350, 8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 65535, 65536, 90000, 1000000, 0x7fffffff, 0xffffffff};
  const vector<u32> idl = {0, 1, 2, 255, 65535, 65536, 0x7fffffff, 0xffffffff};
  const vector<i64> clocks = {1700000000, 0, 1, 0xffffffffLL - 2082844800, 0x100000000LL - 2082844800, 0x7fffffff, 0x200000000LL};
  const vector<u32> mv = {1000, 1, 90000, 0xffffffff};
  const vector<u64> skip = {312, 0, 1, 255, 256, 65535};
  const vector<u8> by = {0x42, 0, 1, 0x64, 0xff};
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) {
      // fields that can change together: every pair of deviations
      vector<std::size_t> r = {wh.size(), wh.size(), br.size(), br.size(), buf.size(), tss.size(), idl.size(), clocks.size(), mv.size(), 2, skip.size(), by.size(), by.size(), by.size(), by.size(), 8, 5, 2, 2, 2, 4, 4};
      const bool video = is_video(Kind(k));
      auto off = [&](std::initializer_list<int> l) {
        for (int i : l) r[i] = 1;
      };
      if (!video) off({0, 1});
      if (k == AV1 || k == H264 || k == OPUS) off({2, 3});
      if (k != AAC && k != MP3) off({4});
      if (k == OPUS) off({5});
      if (k != OPUS) off({10});
      if (k != H264) off({11, 12, 13, 14});
      if (k != AV1) off({15, 16, 17, 18, 19, 20, 21});
      mc::pairwise(r, [&](const vector<std::size_t>& p) {
        if (!m.next()) return;
        Hist h = hist(fast, {k});
        if (p[9]) h.tr.push_back(spec(VP8));
        auto& t = h.tr[0];
        t.w = wh[p[0]];
        t.h = p[1] ? wh[p[1]] : 480;
        t.maxbr = br[p[2]];
        t.avgbr = p[3] ? br[p[3]] : 125000;
        t.buf = buf[p[4]];
        t.ts = tss[p[5]];
        t.id = idl[p[6]];
        h.mvts = mv[p[8]];
        if (p[9] && t.id == 1) h.tr[1].id = 2;  // 1 would be handed out again
        t.pre_skip = skip[p[10]];
        t.conf = p[11] ? by[p[11]] : 1;
        t.profile = by[p[12]];
        t.compat = p[13] ? by[p[13]] : 0xc0;
        t.level = p[14] ? by[p[14]] : 31;
        t.seq_profile = u16(p[15]);
        t.seq_level = vector<u16>{8, 0, 1, 16, 31}[p[16]];
        t.seq_tier = u16(p[17]);
        t.csx = p[18] ? 0 : 1;
        t.csy = p[19] ? 0 : 1;
        t.csp = u16(p[20]);
        if (p[21]) t.obus.assign(vector<u64>{0, 0, 1, 300}[p[21]], 0xa5);
        h.ops = {add(0, 2, true)};
        normalize(h);
        g_clock = clocks[p[7]];
        judge(m, h, HEADERS);
        g_clock = 1700000000;
      });
    }
  // configuration OBUs set at every point
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) {
      Hist h = hist(fast, {AV1, k, AV1}, {add(0, 2, true), add(1, 1), add(0, 1), add(2, 1)});
      settings(h.ops, {obus(0, 0), obus(0, 1), obus(0, 7), obus(2, 5), obus(2, 255), obus(0, 256), obus(2, 70000)}, [&](const vector<Op>& w) {
        if (!m.next()) return;
        Hist g = h;
        g.ops = w;
        judge(m, g, HEADERS);
      });
    }
  // tracks of all kinds in all orders, with identifiers given or handed out
  for (int fast = 0; fast < 2; ++fast)
    for (int a = 0; a < NKIND; ++a)
      for (int b = 0; b < NKIND; ++b)
        for (int c = 0; c < NKIND; ++c)
          for (int how = 0; how < 6; ++how) {
            if (!m.next()) continue;
            Hist h = hist(fast, {a, b, c}, {add(0, 1, true), add(1, 1, true), add(2, 1, true)});
            if (how == 1) h.order = {2, 0, 1};
            if (how == 2) h.order = {1, 2};
            if (how == 3) h.tr[0].id = 1000, h.tr[1].id = 7, h.tr[2].id = 70000;
            if (how == 4) h.tr[1].id = 0xffffffff, h.order = {2, 1, 0};
            if (how == 5) h.tr[0].ps = h.tr[1].ps = h.tr[2].ps = true;
            for (std::size_t i = 0; i < 3; ++i) {
              h.tr[i].w = u32(100 + i);
              h.tr[i].maxbr = u32(1000 + i);
              h.tr[i].ts = u32(8000 * (i + 1));
            }
            judge(m, h, HEADERS);
          }
  // identifiers: distinct, non-zero and smaller than the movie header's next one, whenever they are asked for
  for (int fast = 0; fast < 2; ++fast)
    for (int n : {0, 1, 2, 3, 30, 300, 66000})
      for (int late = 0; late < 9; ++late) {
        if (!m.next()) continue;
        Hist h = hist(fast, {VP9, OPUS}, {add(0, 1, true), add(1, 2)});
        MemBuf b;
        std::ostream os(&b);
        try {
          Muxer mu(h, os);
          std::set<u32> seen;
          u32 mx = 0, cnt = 0;
          for (std::size_t i = 0; i < mu.steps(); ++i) {
            if (mu.writer() && int(i) == std::min<int>(1 + late, int(mu.steps()) - (fast ? 3 : 1)))
              for (int j = 0; j < n; ++j) {
                const u32 id = mu.writer()->getAndUpdateNextTrackID();
                seen.insert(id);
                mx = std::max(mx, id);
                ++cnt;
              }
            mu.step(i);
          }
          for (u32 id : mu.ids) {
            seen.insert(id);
            mx = std::max(mx, id);
            ++cnt;
          }
          m.trace();
          m.trans(mu.steps() + n);
          m.state(hh(b.s));
          m.eval(n > 0);
          if (seen.size() != cnt) m.fail("headers:ids-distinct", "an identifier was handed out twice", h.str() + " n=" + to_string(n));
          if (seen.count(0)) m.fail("headers:id-zero", "identifier 0 was handed out", h.str());
          File<StrSrc> f(StrSrc{b.s});
          check_headers(f, h, mu.ids, mx, u64(g_clock));
        } catch (const Err& e) {
          m.fail(e.key, e.what(), h.str() + " extra ids " + to_string(n) + " at step " + to_string(late));
        } catch (const std::exception& e) {
          m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), h.str());
        }
      }
  // parameters at and beyond what the fields they are written to can hold
  struct Par {
    const char* name;
    std::function<void(TSpec&, u64)> set;
    u64 max, type;
    vector<Kind> kinds;
  };
  const vector<Kind> vide{VP8, VP9, AV1, H264};
  const vector<Par> pars{
      {"width", [](TSpec& t, u64 v) { t.w = u32(v); }, 0xffff, 0xffffffff, vide},
      {"height", [](TSpec& t, u64 v) { t.h = u32(v); }, 0xffff, 0xffffffff, vide},
      {"pre_skip", [](TSpec& t, u64 v) { t.pre_skip = v; }, 0xffff, ~0ull, {OPUS}},
      {"buffer_size_db", [](TSpec& t, u64 v) { t.buf = u32(v); }, 0xffffff, 0xffffffff, {AAC, MP3}},
      {"seq_profile", [](TSpec& t, u64 v) { t.seq_profile = std::uint16_t(v); }, 7, 0xff, {AV1}},
      {"seq_level_idx_0", [](TSpec& t, u64 v) { t.seq_level = std::uint16_t(v); }, 31, 0xff, {AV1}},
      {"seq_tier_0", [](TSpec& t, u64 v) { t.seq_tier = std::uint16_t(v); }, 1, 0xff, {AV1}},
      {"chroma_subsampling_x", [](TSpec& t, u64 v) { t.csx = std::uint16_t(v); }, 1, 0xff, {AV1}},
      {"chroma_subsampling_y", [](TSpec& t, u64 v) { t.csy = std::uint16_t(v); }, 1, 0xff, {AV1}},
      {"chroma_sample_position", [](TSpec& t, u64 v) { t.csp = std::uint16_t(v); }, 3, 0xff, {AV1}},
  };
  for (auto& p : pars) {
    std::set<u64> vs{0, 1, p.max - 1, p.max, p.max + 1, p.max + 2, 2 * p.max + 1, 2 * p.max + 2, 2 * p.max + 3, p.type / 2, p.type / 2 + 1, p.type - 1, p.type};
    for (u64 bit = 1; bit && bit <= p.type; bit <<= 1) vs.insert(bit);
    for (u64 v : vs)
      for (Kind k : p.kinds)
        for (int fast = 0; fast < 2; ++fast)
          for (int beside = 0; beside < 3; ++beside) {
            if (v > p.type || !m.next()) continue;
            Hist h = hist(fast, {k}, {});
            p.set(h.tr[0], v);
            if (beside == 1) h = [&] { Hist x = hist(fast, {OPUS, VP9}, {}); x.tr.insert(x.tr.begin() + 1, h.tr[0]); return x; }();
            const int at = beside == 1 ? 1 : 0;
            if (beside) h.ops = {add(at, 2, true), add(at, 3)};
            const string what = h.str() + " " + p.name + "=" + to_string(v) + " of track " + to_string(at);
            MemBuf b;
            std::ostream os(&b);
            string why;
            try {
              Muxer mu(h, os);
              try {
                for (std::size_t i = 0; i < mu.steps(); ++i) mu.step(i);
              } catch (const std::exception& e) {
                why = string("refused: ") + e.what();
                if (mu.fast()) std::filesystem::remove(mu.fast()->getIntermediateFilePath());
              }
              m.trace();
              m.trans(mu.steps());
              m.state(mc::hash(what));
              m.eval(v > p.max);
              m.outcome(mc::hash(string(p.name) + kname(k) + (why.empty() ? "+" : "-")));
              if (v > p.max) {
                if (why.empty()) m.fail(string("headers:too-large-") + p.name, "more than the header can hold was muxed without an error", what);
              } else if (!why.empty()) {
                m.fail("muxing-refused", why, what);
              } else {
                File<StrSrc> f(StrSrc{b.s});
                u32 mx = 0;
                for (u32 id : mu.ids) mx = std::max(mx, id);
                check_headers(f, h, mu.ids, mx, u64(g_clock));
              }
            } catch (const Err& e) {
              m.fail(e.key, e.what(), what);
            }
          }
  }
  // identifier zero
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) {
      if (!m.next()) continue;
      MemBuf b;
      std::ostream os(&b);
      Hist h = hist(fast, {});
      Muxer mu(h, os);
      mu.step(0);
      namespace tk = lib::track;
      auto* w = mu.writer();
      bool refused = false;
      try {
        std::unique_ptr<tk::Track> t;
        switch (k) {
          case VP8: t.reset(new tk::VPXTrack({.codec = tk::VPXCodec::VP8, .timescale = 1000, .duration = 1, .track_id = 0, .width = 1, .height = 1, .writer = w})); break;
          case VP9: t.reset(new tk::VPXTrack({.timescale = 1000, .duration = 1, .width = 1, .height = 1, .writer = w})); break;
          case AV1: t.reset(new tk::AV1Track({.timescale = 1000, .duration = 1, .track_id = 0, .width = 1, .height = 1, .writer = w})); break;
          case H264: t.reset(new tk::H264Track({.timescale = 1000, .duration = 1, .track_id = 0, .width = 1, .height = 1, .writer = w})); break;
          case AAC: t.reset(new tk::AACTrack({.timescale = 1000, .duration = 1, .track_id = 0, .max_bitrate = 1, .avg_bitrate = 1, .writer = w})); break;
          case OPUS: t.reset(new tk::OpusTrack({.pre_skip = 1, .duration = 1, .track_id = 0, .writer = w})); break;
          default: t.reset(new tk::MP3Track({.timescale = 1000, .duration = 1, .track_id = 0, .max_bitrate = 1, .avg_bitrate = 1, .writer = w}));
        }
      } catch (const std::exception&) {
        refused = true;
      }
      m.trace();
      m.eval(true);
      if (!refused) m.fail("headers:id-zero-accepted", string(kname(Kind(k))) + " track with identifier 0 was accepted", h.str());
      if (fast) std::filesystem::remove(mu.fast()->getIntermediateFilePath());
    }
}

// ---------------------------------------------------------------- P07
static const u8* zeros(u64 n) {
  static u8* p = nullptr;
  static u64 have = 0;
  if (have < n) {
    p = static_cast<u8*>(mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    have = n;
  }
  return p;
}
static Op big(int t, u64 size) {
  Op o = add(t, size, false, true);
  o.data = zeros(0x100000000ULL);
  return o;
}
static const u64 G4 = 0x100000000ULL;

static void huge_judge(mc::MC& m, const Hist& h, const string& note) {
  ut::SparseBuf b;
  std::ostream os(&b);
  imf::begin();
  try {
    Muxer mu(h, os);
    for (std::size_t i = 0; i < mu.steps(); ++i) {
      mu.step(i);
      m.beat();
    }
    m.trans(mu.steps());
    m.trace();
    m.state(b.hash());
    File<SparseSrc> f(SparseSrc{b});
    const auto e = expect(h);
    check_samples(f, h, e);
    check_structure(f, h, e);
    // 64-bit forms exactly where needed
    u64 total = 0;
    for (auto& x : e)
      for (auto s : x.size) total += s;
    const bool large = total + 8 > 0xffffffffULL;
    if ((f.mdat->hdr == 16) != large)
      throw Err("huge:mdat-form", "media data of " + to_string(total) + " bytes has a header of " + to_string(f.mdat->hdr) + " bytes");
    string forms;
    for (std::size_t i = 0; i < f.traks.size(); ++i) {
      bool need = false;
      for (u64 o : f.chunk_offsets(int(i))) need = need || o > 0xffffffffULL;
      const bool co64 = f.stbl(int(i)).find("co64") != nullptr;
      forms += co64 ? "L" : "s";
      if (co64 != need) throw Err("huge:offset-form", "track " + to_string(i) + (co64 ? " uses 64-bit offsets though none needs them" : " uses 32-bit offsets"));
    }
    m.eval(true);
    m.outcome(hh(forms + (large ? "L" : "s")));
    m.count("chunk offset tables " + forms + (large ? " large" : " small") + (h.fast ? " fast" : " simple"));
    m.sample([&] { return h.str() + " " + note + " forms " + forms; });
  } catch (const Err& e) {
    m.fail(e.key, e.what(), h.str() + " " + note);
  } catch (const std::exception& e) {
    m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), h.str() + " " + note);
  }
  imf::end();
}

static void huge(mc::MC& m) {
  const bool th = m.thorough;
  {  // can the intermediate file be kept in memory?
    Hist h = hist(true, {VP9}, {add(0, 1)});
    imf::begin();
    try {
      mux(h);
    } catch (...) {
    }
    if (imf::opened == 0) m.count("intermediate file is a real one");
    imf::end();
  }
  // media data sizes around the limit of the 32-bit header form
  for (int fast = 0; fast < 2; ++fast)
    for (i64 d : th ? vector<i64>{-20, -17, -16, -15, -10, -9, -8, -7, -6, -1, 0, 1, 2, 8, 9, 16, 1 << 20, 1LL << 32} : vector<i64>{-16, -10, -9, -8, -7, 0, 9}) {
      if (!m.next()) continue;
      const u64 total = G4 + u64(d);
      Hist h = hist(fast, {fast ? AAC : VP9});
      h.ops = {add(0, 5, true)};
      for (u64 left = total - 5; left;) {
        const u64 n = std::min<u64>(left, 0xffffffff);
        h.ops.push_back(big(0, n));
        left -= n;
      }
      huge_judge(m, h, "total=2^32+" + to_string(d));
    }
  // and beyond: chunks on both sides of further powers of two
  for (int fast = 0; fast < 2; ++fast)
    for (int bits = 33; bits <= (fast ? 34 : 35) + (th ? 1 : 0); ++bits) {
      if (!m.next()) continue;
      Hist h = hist(fast, {VP9, AAC}, {add(0, 5, true), add(1, 2)});
      for (u64 left = (1ULL << bits) - 100; left;) {
        const u64 n = std::min<u64>(left, 0xfffffff0);
        h.ops.push_back(big(0, n));
        left -= n;
        if (left == 0) break;
        h.ops.push_back(term(0));
        h.ops.push_back(add(1, 3));
        h.ops.push_back(term(1));
      }
      for (int i = 0; i < 4; ++i)
        for (int t = 0; t < 2; ++t) {
          h.ops.push_back(add(t, 20 + t, true));
          h.ops.push_back(term(t));
        }
      normalize(h);
      huge_judge(m, h, "total around 2^" + to_string(bits));
    }
  // chunk positions around the limit: the base position of the marked chunk is learnt from the same history without
  // the filling, so that the 32-bit layout puts it exactly where wanted
  struct Lay {
    int na, nb;        // small chunks of the tracks before the limit
    vector<int> tail;  // tracks of the small chunks around the limit
  };
  const vector<Lay> lays = {{0, 0, {0}}, {1, 0, {0, 1}}, {3, 2, {1, 0}}, {2, 1, {0, 1, 2}}, {2, 3, {2, 1, 0}}};
  auto build = [&](bool fast, const Lay& l, u64 fill) {
    Hist h = hist(fast, {VP8, OPUS, AAC});
    for (int i = 0; i < l.na; ++i) h.ops.push_back(add(0, 3));
    for (int i = 0; i < l.na; ++i) h.ops.push_back(term(0)), h.ops.push_back(add(0, 2));
    for (int i = 0; i < l.nb; ++i) {
      h.ops.push_back(add(1, 3));
      h.ops.push_back(add(2, 4));
    }
    // filling in two samples, each below 2^32
    h.ops.push_back(term(2));
    h.ops.push_back(big(2, fill / 2));
    h.ops.push_back(big(2, fill - fill / 2));
    h.ops.push_back(term(2));
    for (std::size_t i = 0; i < l.tail.size(); ++i) {
      h.ops.push_back(add(l.tail[i], 4, true));
      h.ops.push_back(term(l.tail[i]));
    }
    normalize(h);
    return h;
  };
  for (int fast = 0; fast < 2; ++fast)
    for (std::size_t li = 0; li < lays.size(); ++li) {
      if (!th && fast == 0 && li > 1 && li != 3) continue;
      const vector<i64> deltas = th ? vector<i64>{-200, -48, -40, -33, -32, -31, -29, -28, -27, -25, -24, -23, -21, -20, -17, -16, -15, -13, -12, -9, -8, -7, -5, -4, -3, -1, 0, 1, 3, 4, 7, 8, 9, 100}
                             : fast ? vector<i64>{-44, -28, -24, -20, -16, -12, -8, -5, -4, -1, 0, 1, 4} : vector<i64>{-9, -5, -4, -1, 0, 1};
      for (i64 d : deltas) {
        if (!m.next()) continue;
        const u64 f0 = 2;
        u64 base = 0;
        {  // position of the first tail chunk with almost no filling
          imf::begin();
          MemBuf b;
          std::ostream os(&b);
          Hist h0 = build(fast, lays[li], f0);
          try {
            Muxer mu(h0, os);
            mu.all();
            File<StrSrc> f(StrSrc{b.s});
            const int t = lays[li].tail[0];
            const auto co = f.chunk_offsets(t);
            int later = 0;
            for (int q : lays[li].tail) later += q == t;
            base = co.at(co.size() - later);
          } catch (const std::exception& e) {
            m.fail("muxing-refused", string("small form of the history: ") + e.what(), h0.str());
          }
          imf::end();
          if (!base) continue;
        }
        // the 64-bit media data header of the faststart layout adds 8
        u64 fill = G4 + u64(d) - base + f0;
        u64 small = 0;
        Hist h = build(fast, lays[li], fill);
        for (auto& o : h.ops)
          if (!o.term) small += o.size;
        if (fast && small + 8 > 0xffffffffULL) {
          fill -= 8;
          h = build(fast, lays[li], fill);
        }
        huge_judge(m, h, "tail chunk at 2^32" + to_string(d) + " in the 32-bit layout, arrangement " + to_string(li));
      }
    }
  // a single sample of 4 GiB or more cannot be described, and is refused
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (u64 size : {G4, G4 + 1, G4 + 5, 2 * G4, (G4 << 8) + 7}) {
        if (k == H264) continue;  // would be searched for start codes first
        if (!m.next()) continue;
        ut::SparseBuf b;
        std::ostream os(&b);
        imf::begin();
        Hist h = hist(fast, {k}, {add(0, 1)});
        bool refused = false;
        try {
          Op o = add(0, size, false, true);
          o.data = zeros(2 * G4 + 4096);
          if (size > 2 * G4) {
            // larger than the region: must be refused before it is read
            o.size = size = 2 * G4 + 1;
          }
          h.ops.push_back(o);
          Muxer mu(h, os);
          for (std::size_t i = 0; i < mu.steps(); ++i) {
            mu.step(i);
            m.beat();
          }
          File<SparseSrc> f(SparseSrc{b});
          check_samples(f, h, expect(h));
        } catch (const Err& e) {
          m.fail("huge:sample-size", string("sample of ") + to_string(size) + " bytes: " + e.what(), h.str());
        } catch (const std::exception&) {
          refused = true;
        }
        m.count(refused ? "oversized sample refused" : "oversized sample stored correctly");
        m.trace();
        m.eval(true);
        imf::end();
      }
}

// ---------------------------------------------------------------- P08
static void determinism(mc::MC& m) {
  const bool th = m.thorough;
  // media data given straight to the writer, as a vector or by pointer: its place is told, and it is found there
  const vector<std::size_t> sizes = {0, 1, 5, (1 << 20) - 1, (1 << 20) + 1};
  for (int fast = 0; fast < 2; ++fast)
    for (int n = 1; n <= 3; ++n)
      mc::product(vector<std::size_t>(n, sizes.size() * 2), [&](const vector<std::size_t>& w) {
        if (!m.next()) return;
        m.trace();
        const Hist h = hist(fast, {VP9});
        string desc = h.str() + " media data";
        for (auto x : w) desc += " " + to_string(sizes[x / 2]) + (x % 2 ? "p" : "v");
        m.sample([&] { return desc; });
        m.state(hh(desc));
        MemBuf b;
        std::ostream os(&b);
        try {
          Muxer mu(h, os);
          for (std::size_t i = 0; i < 3; ++i) mu.step(i);
          string want;
          u64 first = 0;
          for (std::size_t i = 0; i < w.size(); ++i) {
            Bytes d(sizes[w[i] / 2]);
            for (std::size_t k = 0; k < d.size(); ++k) d[k] = u8(k * 7 + k / 256 + i * 50 + 1);
            const u64 at = mu.writer()->tellCurrentMdatOffset();
            if (i == 0) first = at;
            if (at - first != want.size()) throw Err("media-data:place", "the place of the media data is told as " + to_string(at));
            want.append(d.begin(), d.end());
            if (w[i] % 2) mu.writer()->addMdatData(d.data(), d.size());
            else mu.writer()->addMdatData(d);
            std::fill(d.begin(), d.end(), 0xee);
            m.trans(2);
          }
          for (std::size_t i = 3; i < mu.steps(); ++i) mu.step(i);
          File<StrSrc> f(StrSrc{b.s});
          string got;
          for (auto& x : f.top)
            if (x.type == "mdat") got = b.s.substr(x.off + x.hdr, x.size - x.hdr);
          m.outcome(hh(b.s));
          if (got != want) m.fail("media-data:bytes", "the media data box holds other bytes than were given", desc);
        } catch (const Err& x) {
          m.fail(x.key, x.what(), desc);
        } catch (const std::exception& x) {
          m.fail("muxing-refused", string("a muxing call reported: ") + x.what(), desc);
        }
      });
  // every interleaving of the calls of two muxers
  struct Pair {
    bool fa, fb;
    vector<int> a, b;
  };
  vector<Pair> pairs;
  for (int f = 0; f < 4; ++f) {
    pairs.push_back({f > 1, f % 2 == 1, {VP9}, {AAC}});
    if (th || f == 0 || f == 3) pairs.push_back({f > 1, f % 2 == 1, {H264}, {H264}});
    if (th) pairs.push_back({f > 1, f % 2 == 1, {AAC}, {AAC}});
    if (th) pairs.push_back({f > 1, f % 2 == 1, {AV1}, {MP3}});
    if (th) pairs.push_back({f > 1, f % 2 == 1, {OPUS}, {VP8}});
  }
  for (auto& p : pairs) {
    Hist a = hist(p.fa, p.a, {add(0, 3, true), add(0, 2)}), b = hist(p.fb, p.b, {add(0, 4, true), add(0, 1)});
    a.tr[0].ps = b.tr[0].ps = true;
    b.dur = 2;
    b.tr[0].dur = 3;
    a.tr[0].w = 100;
    b.tr[0].maxbr = 77;
    b.ops[0].ptr = true;
    string sa, sb;
    try {
      sa = mux(a);
      sb = mux(b);
    } catch (const std::exception& e) {
      m.next();
      m.fail("muxing-refused", e.what(), a.str());
      continue;
    }
    MemBuf x, y;
    std::ostream ox(&x), oy(&y);
    const std::size_t na = Muxer(a, ox).steps(), nb = Muxer(b, oy).steps();
    vector<bool> w(na, false);
    w.insert(w.end(), nb, true);
    do {
      if (!m.next()) continue;
      MemBuf ba, bb;
      std::ostream oa(&ba), ob(&bb);
      string sched;
      for (bool c : w) sched += c ? 'b' : 'a';
      const string d = "schedule " + sched + " of a: " + a.str() + " b: " + b.str();
      try {
        Muxer ma(a, oa), mb(b, ob);
        std::size_t i = 0, j = 0;
        for (bool c : w) {
          if (c)
            mb.step(j++);
          else
            ma.step(i++);
          m.state(mc::mix(mc::mix(i, j), pairs.size() * 7 + p.fa * 2 + p.fb + 16 * p.a[0]));
        }
        m.trans(na + nb);
        m.trace();
        m.eval(true);
        m.sample([&] { return d; });
        if (ba.s != sa) m.fail("determinism:interleaving", "muxer a produced other bytes than alone", d);
        if (bb.s != sb) m.fail("determinism:interleaving", "muxer b produced other bytes than alone", d);
      } catch (const std::exception& e) {
        m.fail("determinism:interleaving", string("a muxing call reported: ") + e.what(), d);
      }
    } while (std::next_permutation(w.begin(), w.end()));
  }
  // a muxer abandoned at any point, while another one is at any point of its calls, does not show in the other's file
  for (int f = 0; f < 4; ++f)
    for (int k = 0; k < NKIND; ++k) {
      if (!th && k != H264 && k != AAC && k != VP9) continue;
      Hist a = hist(f > 1, {k, AAC}, {add(0, 3, true), add(1, 2)}), b = hist(f % 2, {VP9, k}, {add(0, 4, true), add(1, 1)});
      a.dur = 3;
      a.tr[0].w = 100;
      string sb;
      try {
        sb = mux(b);
      } catch (const std::exception& e) {
        m.next();
        m.fail("muxing-refused", e.what(), b.str());
        continue;
      }
      MemBuf x, y;
      std::ostream ox(&x), oy(&y);
      const std::size_t na = Muxer(a, ox).steps(), nb = Muxer(b, oy).steps();
      for (std::size_t begin = 0; begin <= nb; ++begin)
        for (std::size_t end = begin; end <= nb; ++end)
          for (std::size_t done = 0; done <= na; ++done) {
            if (!m.next()) continue;
            auto where = [&] {
              return "a is created before call " + to_string(begin) + " of b, makes " + to_string(done) + " calls and is destroyed before call " + to_string(end) + " of b; a: " + a.str() + " b: " + b.str();
            };
            MemBuf ba, bb;
            std::ostream oa(&ba), ob(&bb);
            imf::begin();
            try {
              std::unique_ptr<Muxer> ma;
              Muxer mb(b, ob);
              for (std::size_t j = 0; j <= nb; ++j) {
                if (j == begin) {
                  ma = std::make_unique<Muxer>(a, oa);
                  for (std::size_t i = 0; i < done / 2; ++i) ma->step(i);
                }
                if (j == end) {
                  for (std::size_t i = done / 2; i < done; ++i) ma->step(i);
                  ma.reset();
                }
                if (j < nb) mb.step(j);
              }
              m.trans(done + nb);
              m.trace();
              m.eval(done < na);
              m.state(mc::mix(mc::mix(begin, end), mc::mix(done, 8 * k + f)));
              m.sample(where);
              if (bb.s != sb) m.fail("determinism:abandoned", "muxer b produced other bytes than alone", where());
            } catch (const std::exception& e) {
              m.fail("determinism:abandoned", string("a muxing call reported: ") + e.what(), where());
            }
            imf::end();
          }
    }
  // the same calls again, after other muxers have run, with other contents of fresh memory: the same bytes
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (int k2 = 0; k2 < NKIND; ++k2)
        words({add(0, 1, true), add(0, 3), add(1, 2, true), term(0)}, th ? 4 : 3, [&](const vector<Op>& w) {
          if (!m.next()) return;
          Hist h = hist(fast, {k, k2}, w);
          try {
            mallopt(M_PERTURB, 0);
            const string one = mux(h);
            for (int pat : {0x55, 0xaa, 0xff}) {
              mallopt(M_PERTURB, pat);
              if (pat == 0xaa) spdlog::set_level(spdlog::level::trace);  // to a logger that writes nothing
              if (pat == 0xff) ut::odd_locale();
              const string two = mux(h);
              spdlog::set_level(spdlog::level::off);
              std::locale::global(std::locale::classic());
              m.trans(2);
              if (two != one) {
                std::size_t at = 0;
                while (at < one.size() && at < two.size() && one[at] == two[at]) ++at;
                m.fail("determinism:repeat", "repeating the calls gives other bytes from offset " + to_string(at), h.str());
              }
            }
            m.trace();
            m.eval(!w.empty());
            m.state(hh(one));
            // redundant chunk ends, and the other form of addData
            Hist g = h;
            for (auto& o : g.ops) o.ptr = !o.ptr;
            if (mux(g) != one) m.fail("determinism:pointer-form", "adding through the pointer form gives other bytes", h.str());
            vector<Op> r;
            vector<bool> open(2, false);
            for (int t = 0; t < 2; ++t) r.push_back(term(t));
            for (auto& o : h.ops) {
              r.push_back(o);
              open[o.t] = !o.term;
              for (int t = 0; t < 2; ++t)
                if (!open[t]) r.push_back(term(t));
            }
            g = h;
            g.ops = r;
            if (mux(g) != one) m.fail("determinism:redundant-end", "ending chunks that are not open gives other bytes", h.str());
            g = h;
            for (int t = 0; t < 2; ++t) g.ops.push_back(term(t));
            if (mux(g) != one) m.fail("determinism:final-end", "ending the last chunks gives other bytes", h.str());
          } catch (const std::exception& e) {
            m.fail("determinism:repeat", string("a muxing call reported: ") + e.what(), h.str());
          }
          mallopt(M_PERTURB, 0);
        });
  // every sequence of clock readings: each file has the times of its own, and is what it is with that reading alone
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (int k2 : {int(VP9), int(AAC)}) {
        const vector<time_t> cs = {0, 1, 1700000000, 1700000001, 2212122495, 2212122496};
        mc::product(vector<std::size_t>(th ? 4 : 3, cs.size()), [&](const vector<std::size_t>& w) {
          if (!m.next()) return;
          Hist h = hist(fast, {k, k2}, {add(0, 1, true), add(1, 2, true)});
          std::map<time_t, string> seen;
          for (std::size_t i : w) {
            g_clock = cs[i];
            try {
              MemBuf b;
              std::ostream os(&b);
              Muxer mu(h, os);
              mu.all();
              m.trans(mu.steps());
              u32 mx = 0;
              for (u32 id : mu.ids) mx = std::max(mx, id);
              check_headers(File<StrSrc>(StrSrc{b.s}), h, mu.ids, mx, u64(g_clock));
              auto [it, fresh] = seen.try_emplace(g_clock, b.s);
              if (!fresh && it->second != b.s) m.fail("determinism:clock", "the same calls at the same time give other bytes", h.str());
              m.state(hh(b.s));
            } catch (const Err& e) {
              m.fail("determinism:clock", string("after muxing at other times: ") + e.what(), h.str() + " clock " + to_string(g_clock));
            } catch (const std::exception& e) {
              m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), h.str());
            }
          }
          m.trace();
          m.eval(true);
          g_clock = 1700000000;
        });
      }
  // the intermediate file's name does not show
  for (int k = 0; k < NKIND; ++k)
    for (const char* pat : {"mdatXXXXXX", "aXXXXXX", "./other-name-XXXXXX"}) {
      if (!m.next()) continue;
      Hist h = hist(true, {k}, {add(0, 4, true)}), g = h;
      g.pattern = pat;
      try {
        if (mux(h) != mux(g)) m.fail("determinism:file-name", "the name of the intermediate file changes the result", g.str());
      } catch (const std::exception& e) {
        m.fail("determinism:repeat", string("a muxing call reported: ") + e.what(), h.str());
      }
      m.trace();
      m.eval(true);
    }
}

// ---------------------------------------------------------------- P21
static vector<Hist> fault_hists(bool th) {
  vector<Hist> r;
  for (int fast = 0; fast < 2; ++fast) {
    for (int k = 0; k < NKIND; ++k) {
      Hist h = hist(fast, {k}, {add(0, 3, true), add(0, 2), term(0), add(0, 5, true)});
      h.tr[0].ps = true;
      r.push_back(h);
      if (th)
        for (int k2 = 0; k2 < NKIND; ++k2) r.push_back(hist(fast, {k, k2}, {add(0, 3, true), add(1, 2), add(0, 5), add(1, 0)}));
    }
    r.push_back(hist(fast, {H264, AAC, VP9, OPUS}, {add(0, 3, true), add(1, 2), add(2, 4, true), add(3, 1), add(0, 2), add(1, 2)}));
    r.push_back(hist(fast, {}, {}));
    r.push_back(hist(fast, {VP9}, {add(0, 0), add(0, (1 << 20) + 3), add(0, 70000)}));
  }
  return r;
}
static void output_faults(mc::MC& m) {
  const auto hs = fault_hists(m.thorough);
  for (auto& h : hs) {
    MemBuf ref;
    {
      std::ostream os(&ref);
      imf::begin();
      try {
        Muxer mu(h, os);
        mu.all();
      } catch (const std::exception& e) {
        m.next();
        m.fail("muxing-refused", e.what(), h.str());
        imf::end();
        continue;
      }
      imf::end();
    }
    for (u64 k = 0; k < ref.ops; ++k)
      for (auto mode : {MemBuf::ONCE, MemBuf::STICKY, MemBuf::PARTIAL})
        for (int exc = 0; exc < 2; ++exc) {
          if (!m.next()) continue;
          MemBuf b;
          b.mode = mode;
          b.fail_at = k;
          std::ostream os(&b);
          if (exc) os.exceptions(std::ios_base::badbit);
          bool reported = false;
          imf::begin();
          std::size_t at = 0;
          try {
            Muxer mu(h, os);
            try {
              for (; at < mu.steps(); ++at) mu.step(at);
            } catch (const std::exception&) {
              reported = true;
            }
            if (h.fast && (reported)) {
              std::error_code ec;
              if (mu.fast()) std::filesystem::remove(mu.fast()->getIntermediateFilePath(), ec);
            }
          } catch (const std::exception&) {
            reported = true;
          }
          imf::end();
          m.trans(at);
          m.trace();
          m.eval(b.faults > 0);
          m.state(mc::mix(hh(b.s), mc::mix(at, reported)));
          m.count(string(b.faults ? (reported ? "fault reported" : "fault silent") : "fault not reached"));
          m.sample([&] { return h.str() + " output operation " + to_string(k) + " of " + to_string(ref.ops) + " fails, mode " + to_string(mode) + ", reported at step " + to_string(at); });
          const string d = h.str() + " output operation " + to_string(k) + " fails " + (mode == MemBuf::ONCE ? "once" : mode == MemBuf::STICKY ? "for good" : "half way") + (exc ? ", stream throws" : "");
          if (b.faults && !reported) m.fail("output:silent", string("no call reported the failure; the file is ") + (b.s == ref.s ? "whole" : "damaged"), d);
          if (!b.faults && !reported && b.s != ref.s) m.fail("output:bytes", "other bytes than without faults", d);
        }
    // the stream goes bad between two calls
    MemBuf tmp;
    std::ostream to(&tmp);
    const std::size_t n = Muxer(h, to).steps();
    for (std::size_t k = 1; k < n; ++k)
      for (auto bit : {std::ios_base::badbit, std::ios_base::failbit}) {
        if (!m.next()) continue;
        MemBuf b;
        std::ostream os(&b);
        bool reported = false;
        imf::begin();
        Muxer mu(h, os);
        try {
          for (std::size_t i = 0; i < n; ++i) {
            if (i == k) os.setstate(bit);
            mu.step(i);
          }
        } catch (const std::exception&) {
          reported = true;
          std::error_code ec;
          if (mu.fast()) std::filesystem::remove(mu.fast()->getIntermediateFilePath(), ec);
        }
        imf::end();
        m.trace();
        m.trans(n);
        m.eval(true);
        if (!reported) m.fail("output:bad-stream", "no call reported that the stream is bad", h.str() + " bad before step " + to_string(k));
      }
  }
}

// ---------------------------------------------------------------- P22
static std::map<string, string> listing(const string& dir) {
  std::map<string, string> r;
  for (auto& e : std::filesystem::recursive_directory_iterator(dir)) {
    if (!e.is_regular_file()) {
      r[e.path().string()] = "dir";
      continue;
    }
    std::ifstream f(e.path(), std::ios::binary);
    r[e.path().string()] = string(std::istreambuf_iterator<char>(f), {});
  }
  return r;
}
static void intermediate(mc::MC& m) {
  namespace fs = std::filesystem;
  const bool th = m.thorough;
  const string top = "p22-" + to_string(m.shard);
  fs::remove_all(top);
  fs::create_directory(top);
  vector<Hist> hs;
  for (int k = 0; k < NKIND; ++k) hs.push_back(hist(true, {k}, {add(0, 3, true), add(0, 2), term(0), add(0, 5, true)}));
  hs.push_back(hist(true, {H264, AAC, VP9}, {add(0, 3, true), add(1, 2), add(2, 4, true), add(0, 2), add(1, 2)}));
  hs.push_back(hist(true, {VP9}));
  for (u64 s : {u64(4095), u64(4096), u64(4097), u64(1 << 20) - 1, u64(1 << 20), u64(1 << 20) + 1, u64(2 << 20), u64(2 << 20) + 4097}) {
    hs.push_back(hist(true, {VP9}, {add(0, s)}));
    hs.push_back(hist(true, {VP9, OPUS}, {add(0, 7), add(1, s), add(0, 4096), add(1, 1)}));
  }
  // the life of the file on the real file system
  int n = 0;
  for (auto& h0 : hs)
    for (const char* pat : {"mdatXXXXXX", "XXXXXX", "sub/dir-XXXXXX", "long.name with blanks.XXXXXX", "aXXXXXXX"})
      for (int upto = 0; upto < 100; ++upto) {
        Hist h = h0;
        const string dir = top + "/" + to_string(n++);
        h.pattern = dir + "/" + pat;
        MemBuf b;
        std::ostream os(&b);
        const std::size_t steps = Muxer(h, os).steps();
        if (upto == int(steps)) break;
        if (upto > 0 && !(h0.tr.size() == 1 && h0.ops.size() == 4) && !(upto == int(steps) - 1)) continue;
        // upto: after how many steps the directory is looked at (0: only at the end)
        if (!m.next()) continue;
        fs::create_directories(dir + "/sub");
        for (const char* decoy : {"mdat", "mdatXXXXXX", "mdatXXXXXXa", "mdatAAAAAA", "XXXXXX", "AAAAAA", "sub/dir-XXXXXX", "sub/dir-aaaaaa", "aXXXXXXX", "mdat.tmp"})
          std::ofstream(dir + "/" + decoy) << "decoy " << decoy;
        const auto before = listing(dir);
        const string d = h.str() + " pattern " + pat;
        try {
          Muxer mu(h, os);
          for (std::size_t i = 0; i < steps; ++i) {
            mu.step(i);
            if (i == 0) {
              const string p = mu.fast()->getIntermediateFilePath().string();
              const string want = h.pattern.substr(0, h.pattern.size() - 6);
              if (p.size() != h.pattern.size() || p.compare(0, want.size(), want) != 0)
                m.fail("intermediate:name", "the intermediate file is " + p, d);
              if (before.count(p)) m.fail("intermediate:existing", "an existing file was taken: " + p, d);
            }
            if (int(i) == upto && i + 1 < steps) {
              auto now = listing(dir);
              const string p = mu.fast()->getIntermediateFilePath().string();
              if (!now.count(p)) m.fail("intermediate:missing", "no intermediate file at " + p, d);
              struct stat sb;
              if (stat(p.c_str(), &sb) == 0 && (sb.st_mode & 0077)) m.fail("intermediate:mode", "the intermediate file is open to others", d);
              now.erase(p);
              if (now != before) m.fail("intermediate:other-files", "other files changed while muxing, after step " + to_string(i), d);
            }
          }
          if (listing(dir) != before) m.fail("intermediate:left", "files were changed or left behind", d);
          File<StrSrc> f(StrSrc{b.s});
          check_samples(f, h, expect(h));
        } catch (const Err& e) {
          m.fail(e.key, e.what(), d);
        } catch (const std::exception& e) {
          m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), d);
        }
        m.trace();
        m.trans(steps);
        m.eval(true);
        fs::remove_all(dir);
      }
  // given up at every point: the file is removed on request, and only once
  for (auto& h0 : hs)
    for (std::size_t upto = 1; upto < 100; ++upto) {
      Hist h = h0;
      const string dir = top + "/up" + to_string(n++);
      h.pattern = dir + "/mdatXXXXXX";
      MemBuf b;
      std::ostream os(&b);
      const std::size_t steps = Muxer(h, os).steps();
      if (upto > steps) break;
      if (!m.next()) continue;
      fs::create_directories(dir);
      for (const char* decoy : {"mdat", "mdatXXXXXX", "mdatAAAAAA"}) std::ofstream(dir + "/" + decoy) << "decoy " << decoy;
      const auto before = listing(dir);
      const string d = h.str() + " given up after " + to_string(upto) + " of " + to_string(steps) + " steps";
      try {
        Muxer mu(h, os);
        for (std::size_t i = 0; i < upto; ++i) mu.step(i);
        for (int twice = 0; twice < 2; ++twice) {
          const bool there = upto < steps && !twice;
          bool ok = false;
          try {
            mu.fast()->deleteIntermediateFile();
            ok = true;
          } catch (const std::exception&) {
          }
          if (ok != there) m.fail(there ? "intermediate:not-removed" : "intermediate:removed-again", there ? "removing the file was refused" : "removing a file that is gone was not refused", d);
          if (listing(dir) != before) m.fail("intermediate:left", "files were changed or left behind", d);
        }
        mu.drop(upto % 2);
        if (listing(dir) != before) m.fail("intermediate:left", "files were changed or left behind by the destructors", d);
      } catch (const std::exception& e) {
        m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), d);
      }
      m.trace();
      m.trans(upto + 2);
      m.eval(true);
      m.state(hh(d));
      fs::remove_all(dir);
    }
  // patterns that cannot be used, and files that vanish
  for (const char* pat : {"no-placeholder", "", "missing/dir/XXXXXX", "XXXXX", "XXXXXX-suffix"}) {
    if (!m.next()) continue;
    const string dir = top + "/bad" + to_string(n++);
    fs::create_directories(dir);
    std::ofstream(dir + "/no-placeholder") << "decoy";
    Hist h = hist(true, {VP9}, {add(0, 1)});
    h.pattern = dir + "/" + pat;
    const auto before = listing(dir);
    bool reported = false;
    try {
      mux(h);
    } catch (const std::exception&) {
      reported = true;
    }
    m.trace();
    m.eval(true);
    if (!reported) m.fail("intermediate:pattern", string("pattern ") + pat + " was accepted", h.pattern);
    if (listing(dir) != before) m.fail("intermediate:other-files", "files were changed although the pattern was refused", h.pattern);
    fs::remove_all(dir);
  }
  for (int vanish = 0; vanish < 2; ++vanish)
    for (std::size_t k = 1; k < 16; ++k) {
      if (!m.next()) continue;
      Hist h = hist(true, {VP9, AAC}, {add(0, 10, true), add(1, 5), add(0, 3)});
      MemBuf b, rb;
      std::ostream os(&b), ro(&rb);
      Muxer mu(h, os);
      Muxer(h, ro).all();
      bool reported = false;
      if (k >= mu.steps()) continue;
      try {
        for (std::size_t i = 0; i < mu.steps(); ++i) {
          if (i == k) {
            const auto p = mu.fast()->getIntermediateFilePath();
            if (vanish == 0)
              fs::remove(p);
            else
              fs::remove(p), fs::create_directory(p), std::ofstream(p / "x") << "y";
          }
          mu.step(i);
        }
      } catch (const std::exception&) {
        reported = true;
      }
      std::error_code ec;
      fs::remove_all(mu.fast()->getIntermediateFilePath(), ec);
      m.trace();
      m.eval(true);
      if (!reported) m.fail("intermediate:remove", "removing the intermediate file failed and no call reported it", h.str() + " gone before step " + to_string(k));
    }
  // someone puts another file, or a link to one, where the intermediate file was, right after it is created or between
  // two calls
  for (int what = 0; what < 4; ++what)
    for (std::size_t hi = 0; hi < (th ? hs.size() : 10); ++hi)
      for (int at = 0; at < 60; ++at) {
        Hist h = hs[hi];
        MemBuf b;
        std::ostream os(&b);
        const std::size_t steps = Muxer(h, os).steps();
        if (at >= int(steps)) break;
        if (!m.next()) continue;
        const string want = mux(h);
        const string dir = top + "/adv" + to_string(n++);
        fs::create_directories(dir);
        h.pattern = dir + "/mXXXXXX";
        const string precious = dir + "/precious";
        const string content = "precious " + string(100, 'p');
        std::ofstream(precious) << content;
        auto swap = [&](const string& p) {
          fs::remove(p);
          if (what == 0) fs::create_symlink("precious", p);
          if (what == 1) fs::create_hard_link(precious, p);
          if (what == 2) std::ofstream(p) << "another file";
          if (what == 3) fs::create_symlink("nowhere", p);
        };
        const string d = h.str() + (what == 0 ? " symbolic link" : what == 1 ? " hard link" : what == 2 ? " other file" : " dangling link") + (at ? " before step " + to_string(at) : string(" at creation"));
        bool reported = false;
        try {
          if (at == 0) imf::after_create = [&](const char* p) { swap(p); };
          Muxer mu(h, os);
          for (std::size_t i = 0; i < steps; ++i) {
            if (at && int(i) == at) swap(mu.fast()->getIntermediateFilePath().string());
            mu.step(i);
          }
        } catch (const std::exception&) {
          reported = true;
        }
        imf::after_create = nullptr;
        m.trace();
        m.trans(steps);
        m.eval(true);
        std::ifstream f(precious, std::ios::binary);
        if (string(std::istreambuf_iterator<char>(f), {}) != content) m.fail("intermediate:other-files", "a file linked to from the intermediate file's name was changed", d);
        if (fs::exists(dir + "/nowhere")) m.fail("intermediate:other-files", "a link at the intermediate file's name was followed", d);
        if (!reported && b.s != want) m.fail("intermediate:wrong-data", "muxing completed with other media data", d);
        fs::remove_all(dir);
      }
  // two muxers sharing a pattern
  for (int cut = 0; cut < 12; ++cut) {
    if (!m.next()) continue;
    Hist h = hist(true, {VP9}, {add(0, 9, true), add(0, 2)}), g = hist(true, {VP9}, {add(0, 4), add(0, 8)});
    const string dir = top + "/two" + to_string(cut);
    fs::create_directories(dir);
    h.pattern = g.pattern = dir + "/mXXXXXX";
    try {
      const string w1 = mux(h), w2 = mux(g);
      MemBuf b1, b2;
      std::ostream o1(&b1), o2(&b2);
      Muxer m1(h, o1), m2(g, o2);
      std::size_t i = 0;
      for (; i < m1.steps() && int(i) < cut; ++i) m1.step(i);
      m2.all();
      for (; i < m1.steps(); ++i) m1.step(i);
      if (b1.s != w1 || b2.s != w2) m.fail("intermediate:shared", "two muxers with the same pattern disturb each other", h.str());
      if (!listing(dir).empty()) m.fail("intermediate:left", "files were left behind", h.str());
    } catch (const std::exception& e) {
      m.fail("muxing-refused", string("a muxing call reported: ") + e.what(), h.str());
    }
    fs::remove_all(dir);
    m.trace();
    m.eval(true);
  }
  // every operation on the file fails in turn
  for (auto& h : hs) {
    MemBuf ref;
    u64 ops = 0;
    string kinds;
    {
      std::ostream os(&ref);
      imf::begin();
      try {
        Muxer mu(h, os);
        mu.all();
      } catch (const std::exception& e) {
        m.next();
        m.fail("muxing-refused", e.what(), h.str());
        imf::end();
        continue;
      }
      ops = imf::ops;
      kinds = imf::kinds;
      if (imf::opened == 0) {
        m.count("file operations not interposed");
        imf::end();
        continue;
      }
      imf::end();
    }
    m.count("file operations per history", ops);
    for (int cr = 0; cr < 2; ++cr) {
      if (!m.next()) continue;
      MemBuf b;
      std::ostream os(&b);
      imf::begin();
      (cr ? imf::fail_create : imf::fail_open) = true;
      Hist g = h;
      g.pattern = top + "/cXXXXXX";
      bool reported = false;
      try {
        Muxer mu(g, os);
        mu.all();
      } catch (const std::exception&) {
        reported = true;
      }
      imf::end();
      m.trace();
      m.eval(true);
      if (!reported) m.fail("intermediate:create", cr ? "creating the file failed and no call reported it" : "opening the file failed and no call reported it", h.str());
    }
    for (u64 k = 0; k < ops; ++k)
      for (auto mode : {imf::ONCE, imf::STICKY, imf::SHORT, imf::END}) {
        if (!m.next()) continue;
        MemBuf b;
        std::ostream os(&b);
        imf::begin(mode, k);
        bool reported = false;
        std::size_t at = 0;
        {
          Muxer mu(h, os);
          try {
            for (; at < mu.steps(); ++at) mu.step(at);
          } catch (const std::exception&) {
            reported = true;
          }
          if (reported && mu.fast()) {
            std::error_code ec;
            fs::remove(mu.fast()->getIntermediateFilePath(), ec);
          }
        }
        const char kind = imf::last_kind;
        const u64 faults = imf::faults;
        imf::end();
        m.trace();
        m.trans(at);
        m.eval(faults > 0);
        m.state(mc::mix(hh(b.s), mc::mix(at, reported)));
        m.count(string("file fault ") + kind + (mode == imf::ONCE ? " once" : mode == imf::STICKY ? " for good" : mode == imf::SHORT ? " short" : " early end") + (reported ? " reported" : " not reported"));
        const string d = h.str() + " file operation " + to_string(k) + " (" + kind + ") of " + kinds + ", mode " + to_string(mode);
        m.sample([&] { return d; });
        if (!reported && b.s != ref.s) m.fail("intermediate:wrong-data", "the file is damaged and no call reported an error", d);
        if (!reported && faults && (mode == imf::ONCE || mode == imf::STICKY)) m.fail("intermediate:silent", "no call reported the failure", d);
      }
  }
  (void)th;
  fs::remove_all(top);
}

// ---------------------------------------------------------------- P35
// steps that may be refused; a refused one has to leave no trace
static void misuse(mc::MC& m) {
  const bool th = m.thorough;
  auto attempt = [&](const std::function<void()>& f) -> int {  // 1: accepted, 0: refused
    m.trans();
    try {
      f();
      return 1;
    } catch (const std::exception&) {
      return 0;
    }
  };
  auto gone = [](Muxer& mu) {
    if (!mu.fast()) return;
    std::error_code ec;
    std::filesystem::remove(mu.fast()->getIntermediateFilePath(), ec);
  };
  // the history with refused samples and calls too late, against the file of the accepted ones
  auto go = [&](const Hist& h, const string& what) {
    if (!m.next()) return;
    m.trace();
    m.sample([&] { return h.str() + what; });
    Hist ok = h;
    ok.ops.clear();
    vector<bool> accept;
    {
      vector<u64> prev(h.tr.size(), 0);
      vector<bool> any(h.tr.size(), false);
      for (auto& o : h.ops) {
        if (o.term) {
          ok.ops.push_back(o);
          accept.push_back(true);
          continue;
        }
        const bool a = !any[o.t] || (o.ts >= prev[o.t] && o.ts - prev[o.t] <= 0xffffffff);
        accept.push_back(a);
        if (!a) continue;
        any[o.t] = true;
        prev[o.t] = o.ts;
        ok.ops.push_back(o);
      }
    }
    bool finish = true;  // the last durations can be stored
    const auto e = expect(ok);
    for (std::size_t i = 0; i < h.tr.size(); ++i) {
      const u64 total = ticks(h.tr[i].dur, h.tr[i].timescale());
      if (!e[i].ts.empty() && total > e[i].ts.back() && total - e[i].ts.back() > 0xffffffff) finish = false;
    }
    MemBuf b, c;
    std::ostream os(&b), oc(&c);
    try {
      Muxer mu(h, os);
      const std::size_t at = 2 + h.tr.size();
      bool refused = false;
      for (std::size_t i = 0; i < at + h.ops.size(); ++i) {
        const int got = attempt([&] { mu.step(i); });
        const bool want = i < at || accept[i - at];
        if (!want) refused = true;
        if (bool(got) != want) {
          gone(mu);
          throw Err(want ? "misuse:refused" : "misuse:accepted", string(want ? "refused: " : "accepted: ") + "step " + to_string(i) + (i < at ? "" : ", sample at " + to_string(h.ops[i - at].ts)));
        }
      }
      m.eval(refused || !finish);
      m.state(hh(h.str()));
      const std::size_t append = at + h.ops.size();
      for (int n = 0; n < (finish ? 1 : 2); ++n) {
        const int got = attempt([&] { mu.step(append); });
        if (bool(got) != finish) {
          gone(mu);
          throw Err(finish ? "misuse:finish-refused" : "misuse:finish-accepted", finish ? "the tracks were refused" : "a last sample's duration of more than 32 bits was accepted");
        }
      }
      if (!finish) {
        gone(mu);
        m.outcome(hh("not finished"));
        return;
      }
      for (std::size_t i = append + 1; i <= mu.steps(); ++i) {
        for (std::size_t t = 0; t < h.tr.size(); ++t)
          if (attempt([&] { mu.raw(int(t), h.tr[t].k == H264 ? Bytes{0, 0, 0, 1, 0x65, 1} : Bytes{1}); })) {
            gone(mu);
            throw Err("misuse:late", "a sample was accepted by track " + to_string(t) + " after " + to_string(i - append) + " finishing calls");
          }
        if (i < mu.steps()) mu.step(i);
      }
      if (mu.fast() && attempt([&] { mu.fast()->copyMdatData(); })) throw Err("misuse:copied-twice", "the media data was copied a second time");
      Muxer ref(ok, oc);
      ref.all();
      m.outcome(hh(c.s));
      if (b.s != c.s) throw Err("misuse:trace", "the file differs from the one muxed without the refused calls");
      File<StrSrc> f(StrSrc{b.s});
      check_samples(f, ok, e);
      check_timing(f, ok, e);
      check_structure(f, ok, e);
    } catch (const Err& x) {
      m.fail(x.key, x.what(), h.str() + what);
    } catch (const std::exception& x) {
      m.fail("muxing-refused", string("a muxing call reported: ") + x.what(), h.str() + what);
    }
  };
  m.phase("timestamps");
  struct D {
    float dur;
    u32 ts;
  };
  const vector<u64> at = {0, 1, 40, 0xffffffff, 0x100000000, 0x100000001, 0x140000000, ~u64(0)};
  const vector<D> ds = {{1, 1000}, {65536, 65536}, {65536, 65537}, {131072, 48000}, {1 << 20, 0xffffffff}};
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (auto& d : ds) {
        if (k == OPUS && d.ts != 48000) continue;
        for (int n = 1; n <= (th ? 4 : 3); ++n)
          mc::product(vector<std::size_t>(n, at.size()), [&](const vector<std::size_t>& w) {
            for (int shape = 0; shape < 4; ++shape) {
              Hist h = hist(fast, {k});
              h.tr[0].ts = d.ts;
              h.tr[0].dur = d.dur;
              for (int i = 0; i < n; ++i) {
                h.ops.push_back(add(0, 1 + i, i != 1, shape & 1));
                h.ops.back().ts = at[w[i]];
                if (shape >= 2 && i % 2 == 0) h.ops.push_back(term(0));
              }
              go(h, "");
            }
          });
      }
  m.phase("two tracks");
  const vector<u64> at2 = {0, 40, 0xffffffff, 0x100000000, 0x140000000};
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k)
      for (int k2 : {OPUS, VP9})
        mc::product(vector<std::size_t>(4, at2.size() * 2), [&](const vector<std::size_t>& w) {
          Hist h = hist(fast, {k, k2});
          for (auto& t : h.tr) {
            t.ts = 48000;
            t.dur = 131072;
          }
          int last = -1;
          for (auto x : w) {
            const int t = int(x / at2.size());
            if (last >= 0 && last != t) h.ops.push_back(term(last));
            last = t;
            h.ops.push_back(add(t, 1 + x, true));
            h.ops.back().ts = at2[x % at2.size()];
          }
          go(h, "");
        });
  m.phase("identifiers");
  const vector<u32> ids = {0, 1, 2, 3, 4, 5, 0x7fffffff, 0xfffffffe, 0xffffffff};  // 0: handed out
  for (int fast = 0; fast < 2; ++fast)
    for (int n = 1; n <= 3; ++n)
      mc::product(vector<std::size_t>(n, ids.size()), [&](const vector<std::size_t>& w) {
        for (int twice = 0; twice < 2; ++twice)
          for (int extra = 0; extra < 4; ++extra) {
            if (!m.next()) continue;
            Hist h = hist(fast, {});
            for (int i = 0; i < n; ++i) {
              h.tr.push_back(spec((i + int(w[0])) % NKIND));
              h.tr.back().id = ids[w[i]];
            }
            for (int i = 0; i < n; ++i) h.ops.push_back(add(i, 2, true)), h.ops.push_back(term(i));
            if (twice) {
              for (int i = 0; i < n; ++i) h.order.push_back(i);
              h.order.push_back(n / 2);
            }
            const string what = h.str() + " " + to_string(extra) + " more identifiers";
            m.trace();
            m.state(hh(what));
            MemBuf b;
            std::ostream os(&b);
            try {
              Muxer mu(h, os);
              u32 mx = 0;
              const std::size_t append = 2 + h.tr.size() + h.ops.size();
              for (std::size_t i = 0; i < append; ++i) {
                mu.step(i);
                if (i == 0)
                  for (int j = 0; j < extra; ++j) mx = std::max(mx, mu.writer()->getAndUpdateNextTrackID());
              }
              bool want = !twice;
              for (std::size_t i = 0; i < mu.ids.size(); ++i) {
                mx = std::max(mx, mu.ids[i]);
                for (std::size_t j = 0; j < i; ++j) want = want && mu.ids[i] != mu.ids[j];
              }
              m.eval(!want);
              const int got = attempt([&] { mu.step(append); });
              m.outcome(hh(to_string(got) + to_string(mx)));
              if (bool(got) != want || !want) gone(mu);
              if (bool(got) != want) throw Err(want ? "misuse:ids-refused" : "misuse:ids-accepted", want ? "distinct identifiers were refused" : "an identifier was used more than once");
              if (!want) continue;
              for (std::size_t i = append + 1; i < mu.steps(); ++i) mu.step(i);
              File<StrSrc> f(StrSrc{b.s});
              check_headers(f, h, mu.ids, mx, u64(g_clock));
            } catch (const Err& x) {
              m.fail(x.key, x.what(), what);
            } catch (const std::exception& x) {
              m.fail("muxing-refused", string("a muxing call reported: ") + x.what(), what);
            }
          }
      });
}

// ------------------------------------------------------------------ P36
// Every word over the muxer's calls. Letters: F ftyp, A B a sample of track 0 or 1 (a and b: with the chunk ended after it),
// T the end of track 0's chunk, P all tracks handed over, Q only track 0, M (free and) media data header, V moov, C copying.
static void orders(mc::MC& m) {
  const bool th = m.thorough;
  std::map<string, string> refs;
  auto run = [&](const Hist& base, const string& w) {
    if (!m.next()) return;
    m.trace();
    const string desc = base.str() + " calls " + w;
    m.sample([&] { return desc; });
    MemBuf b;
    std::ostream os(&b);
    string done;  // the letters accepted
    Hist ok = base;
    ok.ops.clear();
    bool strict = true;  // so far in the documented order
    int stage = 0;       // 0 nothing, 1 ftyp, 2 tracks handed over, 3.. finishing calls
    const string tail = base.fast ? "VMC" : "MV";
    vector<int> all = base.order;
    if (all.empty())
      for (std::size_t i = 0; i < base.tr.size(); ++i) all.push_back(int(i));
    vector<bool> any(base.tr.size(), false);
    string path;
    try {
      Muxer mu(base, os);
      mu.step(0);
      for (std::size_t i = 0; i < base.tr.size(); ++i) mu.step(2 + i);
      if (mu.fast()) path = mu.fast()->getIntermediateFilePath().string();
      bool q = false, handed = false, moov_after = false;
      for (std::size_t i = 0; i < w.size(); ++i) {
        const char c = w[i];
        const bool sample = strchr("ABab", c);
        const int t = c == 'B' || c == 'b';
        bool may_refuse = false;  // although in order
        if (strict) {
          if (c == 'F') strict = stage == 0, stage = 1;
          else if (sample || c == 'T') strict = stage == 1;
          else if (c == 'P' || c == 'Q') {
            strict = stage == 1;
            stage = 2;
            for (int k : c == 'Q' ? vector<int>{0} : all)
              if (any[k] && ticks(base.tr[k].dur, base.tr[k].timescale()) > 0x1ffffffff) may_refuse = true;
            if (c == 'P')
              for (std::size_t x = 0; x < all.size(); ++x)
                for (std::size_t y = 0; y < x; ++y) may_refuse = may_refuse || mu.ids[all[x]] == mu.ids[all[y]];
          } else {
            strict = stage >= 2 && stage - 2 < int(tail.size()) && tail[stage - 2] == c;
            ++stage;
          }
        }
        m.trans();
        bool got = true;
        string why;
        try {
          const Op o = [&] {
            Op o = add(t, 1 + i, true);
            o.ts = 10 * i;
            return o;
          }();
          switch (c) {
            case 'F': mu.step(1); break;
            case 'A': case 'B': case 'a': case 'b':
              mu.call(o);
              ok.ops.push_back(o);
              any[t] = true;
              if (islower(c)) {
                mu.call(term(t));
                ok.ops.push_back(term(t));
              }
              break;
            case 'T':
              mu.call(term(0));
              ok.ops.push_back(term(0));
              break;
            case 'P': mu.append(all); break;
            case 'Q': mu.append({0}); break;
            case 'V': mu.writer()->writeMoovBox(); break;
            case 'M':
              if (mu.fast()) mu.fast()->writeMdatHeader();
              else static_cast<lib::writer::SimpleWriter*>(mu.writer())->writeFreeBoxAndMdatHeader();
              break;
            default: mu.fast()->copyMdatData();
          }
        } catch (const std::exception& x) {
          got = false;
          why = x.what();
        }
        if (!got) {
          if (strict && !may_refuse) throw Err("orders:refused", string("call ") + c + ", the " + to_string(i + 1) + "th, was refused in the documented order: " + why);
          strict = false;
          continue;
        }
        if (may_refuse) throw Err("orders:accepted", "tracks that cannot be stored were accepted");
        done += c;
        if (c == 'P' || c == 'Q') handed = true, q = c == 'Q', moov_after = false;
        if (c == 'V' && handed) moov_after = true;
      }
      m.state(hh(done + desc));
      const bool whole = moov_after && done.find('F') != string::npos && done.find('M') != string::npos && (!base.fast || done.find('C') != string::npos);
      m.eval(done != w);
      if (whole) {
        if (q) ok.order = {0};
        const string key = ok.str();
        auto& r = refs[key];
        if (r.empty()) {
          MemBuf c;
          std::ostream oc(&c);
          Muxer ref(ok, oc);
          ref.all();
          r = c.s;
          if (refs.size() > 20000) {
            const string keep = r;
            refs.clear();
            refs[key] = keep;
          }
        }
        m.outcome(hh(b.s));
        if (b.s != refs[key]) throw Err("orders:file", "the calls " + done + " were accepted, but the file is not that of the documented order");
        File<StrSrc> f(StrSrc{b.s});
        const auto e = expect(ok);
        check_samples(f, ok, e);
      }
    } catch (const Err& x) {
      m.fail(x.key, x.what(), desc);
    } catch (const std::exception& x) {
      m.fail("muxing-refused", string("a muxing call reported: ") + x.what(), desc);
    }
    std::error_code ec;
    if (!path.empty()) std::filesystem::remove(path, ec);
  };
  auto every = [&](const Hist& h, const string& alpha, int depth) {
    for (int n = 1; n <= depth; ++n) {
      string w(n, ' ');
      mc::product(vector<std::size_t>(n, alpha.size()), [&](const vector<std::size_t>& x) {
        for (int i = 0; i < n; ++i) w[i] = alpha[x[i]];
        // longer ones have to make a file
        if (n > 5 && (w.find('F') == string::npos || w.find('M') == string::npos || w.find('V') == string::npos || (h.fast && w.find('C') == string::npos) || w.find_first_of("PQ") == string::npos)) return;
        run(h, w);
      });
    }
  };
  m.phase("one track");
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < NKIND; ++k) every(hist(fast, {k}), fast ? "FATPVMC" : "FATPVM", 7 + th);
  m.phase("two tracks");
  for (int fast = 0; fast < 2; ++fast) every(hist(fast, {VP9, OPUS}), fast ? "FabPQVMC" : "FabPQVM", 7 + th);
  m.phase("refused tracks");
  for (int fast = 0; fast < 2; ++fast)
    for (int what = 0; what < 3; ++what) {
      Hist h = hist(fast, {VP9, AAC});
      h.tr[1].ts = 48000;
      if (what < 2) h.tr[1].dur = 1 << 20;  // more than 32 bits after the last sample
      if (what == 1) h.order = {1, 0};
      if (what == 2) h.tr[0].id = h.tr[1].id = 7;
      every(h, fast ? "FabPQVMC" : "FabPQVM", 7);
    }
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  spdlog::set_default_logger(spdlog::null_logger_mt("none"));
  spdlog::set_level(spdlog::level::off);
  const string& p = m.prop;
  if (p == "P01") samples(m, false);
  else if (p == "P02") samples(m, true);
  else if (p == "P03") timing(m);
  else if (p == "P04") keys(m);
  else if (p == "P05") structure(m);
  else if (p == "P06") headers(m);
  else if (p == "P07") huge(m);
  else if (p == "P08") determinism(m);
  else if (p == "P35") misuse(m);
  else if (p == "P36") orders(m);
  else if (p == "P21") output_faults(m);
  else if (p == "P22") intermediate(m);
  else return 3;
  return m.finish();
}
