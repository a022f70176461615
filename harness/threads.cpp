// P32: objects that do not belong together can be used in different threads, and so can the const members of one.
//
// Two threads run one program of library calls each, with nothing that orders them: the second one starts when the
// first is through, which it learns from a relaxed atomic, no synchronisation. The race detector (ThreadSanitizer,
// vector clocks) reports every pair of conflicting accesses that nothing orders, wherever in the two runs they are, so
// the one schedule stands for all interleavings: if no two accesses conflict, all interleavings are equivalent to it
// (they belong to one Mazurkiewicz trace), and if some do, they are reported in it. All ordered pairs of programs are
// run. Caches made at first use are met in processes of their own, in which nothing has run before.
#include "kinds.hpp"
#define MX_CLOCK
#include "mux.hpp"

#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <cxxabi.h>

#include <climits>
#include <condition_variable>
#include <locale>
#include <memory>
#include <mutex>
#include <thread>

#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
#include "shiguredo/mp4/stream/stream.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/version.hpp"

using std::string;
using std::to_string;
using std::vector;
using mx::Hist;
using mx::Op;

// ------------------------------------------------------------------ races
extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count,
                           int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
}
struct Access {
  int size = 0, write = 0;
  void* pc[8] = {};
};
static int g_races = 0;
static Access g_first[2], g_other;
static const char* g_kind = "";
// where the C++ library's own objects are (std::cout, character tables)
static std::uintptr_t g_cxx[2];
static void find_cxx() {
  dl_iterate_phdr(
      [](dl_phdr_info* i, std::size_t, void*) {
        if (!i->dlpi_name || !strstr(i->dlpi_name, "libstdc++")) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k)
          if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            const std::uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
            if (!g_cxx[0] || a < g_cxx[0]) g_cxx[0] = a;
            if (e > g_cxx[1]) g_cxx[1] = e;
          }
        return 0;
      },
      nullptr);
}
// called with the detector's locks held: nothing in it may be watched or call anything that is
extern "C" __attribute__((disable_sanitizer_instrumentation)) void __tsan_on_report(void* report) {
  const char* description = "";
  int a, b, mops = 0, d, e, f, g;
  __tsan_get_report_data(report, &description, &a, &b, &mops, &d, &e, &f, &g, nullptr, 0);
  for (int i = 0; i < 2 && i < mops; ++i) {
    int tid, atomic;
    void* addr;
    Access* x = g_races == 0 ? &g_first[i] : &g_other;
    __tsan_get_report_mop(report, static_cast<unsigned long>(i), &tid, &addr, &x->size, &x->write, &atomic, x->pc, 8);
    const auto at = reinterpret_cast<std::uintptr_t>(addr);
    if (at >= g_cxx[0] && at < g_cxx[1]) return;
  }
  if (g_races == 0) g_kind = description;
  ++g_races;
}
static string function(void* pc) {
  Dl_info i{};
  if (!pc || !dladdr(pc, &i) || !i.dli_sname) return "";
  int st = 0;
  char* n = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
  string r = n ? n : i.dli_sname;
  free(n);
  return r.substr(0, 160);
}
static string race() {
  string r = string(g_kind) + ":";
  for (auto& a : g_first) {
    string where;
    for (void* pc : a.pc) {
      const string f = function(pc);
      if (!f.empty() && (where.empty() || f.find("shiguredo") != string::npos)) where = f;
      if (f.find("shiguredo") != string::npos) break;
    }
    r += string(a.write ? " write" : " read") + " of " + to_string(a.size) + " bytes in " + where + ";";
  }
  return r;
}

// C functions with one result or state for all callers, which the race detector does not look into
static char g_shared[8];
static void touch(int i) {
  volatile char* p = &g_shared[i];
  *p = static_cast<char>(*p + 1);
}
template <class F>
static F next_of(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C" {
std::tm* gmtime(const std::time_t* t) noexcept {
  touch(0);
  static std::tm r;
  return gmtime_r(t, &r);
}
std::tm* localtime(const std::time_t* t) noexcept {
  touch(0);
  static std::tm r;
  return localtime_r(t, &r);
}
char* asctime(const std::tm* t) noexcept {
  touch(1);
  static char r[64];
  return asctime_r(t, r);
}
char* ctime(const std::time_t* t) noexcept {
  touch(1);
  static char r[64];
  return ctime_r(t, r);
}
char* strtok(char* s, const char* d) noexcept {
  touch(2);
  static char* save;
  return strtok_r(s, d, &save);
}
int setenv(const char* n, const char* v, int o) noexcept {
  touch(3);
  return next_of<int (*)(const char*, const char*, int)>("setenv")(n, v, o);
}
int putenv(char* v) noexcept {
  touch(3);
  return next_of<int (*)(char*)>("putenv")(v);
}
int unsetenv(const char* n) noexcept {
  touch(3);
  return next_of<int (*)(const char*)>("unsetenv")(n);
}
char* setlocale(int c, const char* l) noexcept {
  if (l) touch(4);
  return next_of<char* (*)(int, const char*)>("setlocale")(c, l);
}
}

// ------------------------------------------------------------------ programs
struct Program {
  string name;
  std::function<string()> run;
  vector<string> key;  // what it is made from
};
static Op add(int t, std::uint64_t size, bool key, bool ptr) {
  Op o;
  o.t = t;
  o.size = size;
  o.key = key;
  o.ptr = ptr;
  return o;
}
static Op term(int t) {
  Op o;
  o.t = t;
  o.term = true;
  return o;
}
static string mux(bool fast, int k, int form) {
  Hist h;
  h.fast = fast;
  mx::TSpec t;
  t.k = mx::Kind(k);
  t.ps = form == 0;
  h.tr.push_back(t);
  if (form == 1) {  // with another track
    t.k = k == mx::AAC ? mx::VP9 : mx::AAC;
    h.tr.push_back(t);
  }
  h.ops = {add(0, 3, true, form), add(0, 2, false, !form), term(0)};
  if (form == 1) h.ops.insert(h.ops.end(), {add(1, 4, true, false), term(1)});
  h.ops.push_back(add(0, 1, true, false));
  h.ops.push_back(term(0));
  std::uint64_t n = 0;
  for (auto& o : h.ops) o.ts = o.term ? 0 : 10 * n++;
  mx::MemBuf b;
  std::ostream os(&b);
  if (form == 2) {  // the output fails on the way
    b.mode = mx::MemBuf::STICKY;
    b.fail_at = 40;
  }
  if (form == 3) h.pattern = "no-such-directory/XXXXXX";
  string r;
  try {
    mx::Muxer m(h, os);
    m.all();
  } catch (const std::exception& e) {
    r = e.what();
  }
  return r + b.s;
}
static const vector<Kind>& all_kinds() {
  static const auto* k = new vector<Kind>(kinds());
  return *k;
}
static vector<std::size_t> to_path(const string& s) {
  vector<std::size_t> r;
  std::istringstream is(s);
  for (std::size_t v; is >> v;) r.push_back(v);
  return r;
}
static string from_path(const vector<std::size_t>& p) {
  string r;
  for (auto v : p) r += (r.empty() ? "" : " ") + to_string(v);
  return r;
}
static string box_program(const string& name, const string& path, int part) {
  string r;
  for (auto& k : all_kinds()) {
    if (k.name != name) continue;
    Ch c;
    c.path = to_path(path);
    Case x = k.gen(c);
    r += x.box->toString();
    std::ostringstream os;
    r += to_string(x.box->writeData(os)) + os.str();
    x.box->setOffsetAndDataSize(0, x.box->getDataSize());
    std::ostringstream whole;
    x.box->write(whole);
    r += whole.str() + x.box->toString();
    for (int mode = 0; mode < 2; ++mode) {
      BoxMap bm;
      register_box_map(&bm);
      if (mode == 1 && !k.registered) break;
      std::shared_ptr<Box> b = mode ? std::shared_ptr<Box>(bm.getBoxInstance(BoxType(to_arr<4>(k.name)))) : k.fresh();
      if (x.prepare) x.prepare(b.get());
      string data = ut::str(x.enc);
      if (part == 1) data.resize(data.size() * 2 / 3);
      std::istringstream is(data);
      try {
        b->readData(is);
        r += b->toString();
      } catch (const std::exception& e) {
        r += e.what();
      }
    }
    break;
  }
  return r;
}
static string dump(int form) {
  string file;
  {
    ut::Enc e;
    e.bytes(ut::box("moov", ut::cat({ut::box("free", {1, 2, 3}), ut::box("udta", ut::box("xyzw", {1}))})));
    file = ut::str(e.v);
    if (form == 1) file += mux(false, mx::AAC, 0);
    if (form == 2) file.resize(file.size() - 3);
  }
  std::istringstream is(file);
  string r;
  try {
    reader::SimpleReader s(is);
    s.read();
  } catch (const std::exception& e) {
    r = e.what();
  }
  return r;
}
static string numbers(int form) {
  string r;
  std::ostringstream os;
  bitio::Writer w(os);
  if (form == 0) {
    for (int i = 1; i <= 64; ++i) bitio::write_uint<std::uint64_t>(&w, 0x123456789abcdefULL * static_cast<unsigned>(i), static_cast<std::uint64_t>(i));
    for (int i = 1; i <= 64; ++i) bitio::write_int<std::int64_t>(&w, i % 2 ? -i : i, static_cast<std::uint64_t>(i < 8 ? 8 : i));
    for (int i = 0; i < 24; ++i) bitio::write_bool(&w, i % 3 == 0);
    while (os.str().size() < 3) bitio::write_bool(&w, true);
    r += os.str();
    std::istringstream is(r);
    bitio::Reader rd(is);
    for (int i = 1; i <= 64; ++i) {
      std::uint64_t v;
      bitio::read_uint<std::uint64_t>(&rd, &v, static_cast<std::uint64_t>(i));
      r += to_string(v);
    }
    for (int i = 1; i <= 20; ++i) {
      std::int64_t v;
      bitio::read_int<std::int64_t>(&rd, &v, static_cast<std::uint64_t>(i));
      r += to_string(v);
    }
  } else if (form == 1) {
    bitio::write_string(&w, "text");
    bitio::write_pascal_string(&w, "pascal");
    bitio::write_uvarint<std::uint32_t>(&w, 300, 4);
    bitio::write_vector_uint<std::uint16_t>(&w, {1, 2, 3});
    bitio::write_array_uint8_4(&w, {1, 2, 3, 4});
    r += os.str();
    std::istringstream is(r);
    bitio::Reader rd(is);
    string s;
    bitio::read_string(&rd, &s, 8 * 10);
    r += s;
    bitio::read_pascal_string(&rd, &s, 8 * 7);
    r += s;
    std::uint32_t v = 0;
    bitio::read_uvarint<std::uint32_t>(&rd, &v);
    r += to_string(v);
    vector<std::uint16_t> l;
    bitio::read_vector_uint<std::uint16_t>(&rd, 3, &l);
    std::array<std::uint8_t, 4> a{};
    bitio::read_array_uint8_4(&rd, &a);
    r += to_string(l[2] + a[3]);
    try {
      bitio::write_pascal_string(&w, string(300, 'x'));
    } catch (const std::exception& e) {
      r += e.what();
    }
  } else if (form == 2) {
    for (std::uint32_t i : {0u, 1u, 0x12345678u, ~0u}) {
      const auto a = endian::uint32_to_be(i);
      r += string(a.begin(), a.end()) + to_string(endian::be_to_uint32(a));
      const auto b = endian::uint64_to_be(i * 0x100000001ULL);
      r += string(b.begin(), b.end()) + to_string(endian::be_to_uint64(b));
    }
    for (std::uint64_t i : {0ULL, 2082844800ULL, 3782844800ULL, 0x1ffffffffULL, ~0ULL}) r += time::format_epoch_19040101(i) + to_string(time::convert_to_epoch_19040101(i));
    r += to_string(time::convert_to_timescale(1.5f, 90000)) + to_string(time::get_version_for_times({1, 2, 0x100000000ULL})) + get_version_string();
  } else if (form == 3) {
    for (const char* t : {"moov", "free", "\xa9nam", "----"}) {
      const BoxType b{string(t)};
      r += b.toString();
      BoxType any{string("any ")};
      r += b == any ? "y" : "n";
      r += b.matchWith(BoxType{string("moov")}) ? "y" : "n";
    }
    r += BoxType(std::array<std::uint8_t, 4>{0, 0, 0, 0}).toString();
  } else if (form == 4) {
    vector<box::SttsEntry> e;
    track::make_stts_entries(&e, {1, 1, 2, 3, 3, 3});
    for (auto& x : e) r += x.toString();
    vector<box::StscEntry> s;
    vector<track::ChunkInfo> c = {{.offset = 1, .number_of_samples = 2}, {.offset = 9, .number_of_samples = 2}, {.offset = 20, .number_of_samples = 1}};
    track::make_stsc_entries(&s, c);
    for (auto& x : s) r += x.toString();
    const Bytes h = {0, 0, 1, 0x67, 1, 2, 3, 0, 0, 0, 1, 0x65, 9, 9, 0, 0, 1, 0x41, 1};
    std::size_t at = 0;
    for (int i = 0; i < 3; ++i) {
      const auto n = track::find_next_nal_unit(h.data(), h.size(), at);
      std::ostringstream o;
      o << n;
      r += o.str();
      at = n.end;
    }
  } else {
    BoxInfo root({.box = new box::Moov()});
    auto* a = new BoxInfo({.parent = &root, .box = new box::Udta()});
    new BoxInfo({.parent = a, .box = new box::Free({.data = {1, 2, 3}})});
    root.adjustOffsetAndSize(0);
    std::ostringstream o;
    root.write(o);
    r += o.str() + root.toString() + a->toString();
    std::istringstream is(o.str().substr(0));
    try {
      std::unique_ptr<BoxHeader> hd(read_box_header(is));
      r += hd->toString();
      std::ostringstream o2;
      hd->write(o2);
      r += o2.str();
      is.seekg(0, std::ios_base::beg);
      r += to_string(stream::get_istream_offset_to_end(is));
    } catch (const std::exception& e) {
      r += e.what();
    }
    auto* f = dynamic_cast<FullBox*>(new box::Mfhd());
    f->setFlags(0x123456);
    f->addFlag(1);
    f->removeFlag(0x2000);
    f->setVersion(3);
    r += to_string(f->getFlags()) + to_string(f->getVersion());
    delete f;
  }
  return r;
}

static string program(const vector<string>& k) {
  if (k[0] == "mux") return mux(k[1] == "1", atoi(k[2].c_str()), atoi(k[3].c_str()));
  if (k[0] == "dump") return dump(atoi(k[1].c_str()));
  if (k[0] == "numbers") return numbers(atoi(k[1].c_str()));
  return box_program(k[1], k[2], atoi(k[3].c_str()));
}
// evenly spread ones
static vector<vector<std::size_t>> short_structures(const Kind& k, std::size_t most) {
  vector<vector<std::size_t>> ok, r;
  struct Enough {};
  std::size_t n = 0;
  try {
    structures(k, [&](auto& path, auto&) {
      Ch c;
      c.path = path;
      if (k.gen(c).enc.size() < 600) ok.push_back(path);
      if (++n == 200) throw Enough();
    });
  } catch (Enough&) {}
  most = std::min(most, ok.size());
  for (std::size_t i = 0; i < most; ++i) r.push_back(ok[i * (ok.size() - 1) / std::max<std::size_t>(1, most - 1)]);
  return r;
}
static vector<Program> programs(bool th) {
  vector<Program> p;
  auto put = [&](const string& name, const vector<string>& key) { p.push_back({name, [key] { return program(key); }, key}); };
  for (int fast = 0; fast < 2; ++fast)
    for (int k = 0; k < mx::NKIND; ++k)
      for (int form = 0; form < (fast ? 4 : 3); ++form)
        put(string(fast ? "faststart" : "progressive") + " file with a " + mx::kname(mx::Kind(k)) + " track" +
                (form == 1 ? " and another" : form == 2 ? ", failing output" : form == 3 ? ", no place for the intermediate file" : ""),
            {"mux", to_string(fast), to_string(k), to_string(form)});
  for (int i = 0; i < 3; ++i) put(string("dump of a ") + (i == 0 ? "small" : i == 1 ? "muxed" : "cut") + " file", {"dump", to_string(i)});
  for (int i = 0; i < 6; ++i) {
    static const char* n[] = {"bits", "strings", "byte orders and times", "box types", "tables and units", "box trees"};
    put(n[i], {"numbers", to_string(i)});
  }
  for (auto& k : all_kinds()) {
    const auto paths = short_structures(k, th ? 12 : 3);
    for (std::size_t i = 0; i < paths.size(); ++i)
      for (int part = 0; part < (i == 0 ? 2 : 1); ++part)
        put("box " + k.name + " structure " + from_path(paths[i]) + (part ? ", cut" : ""), {"box", k.name, from_path(paths[i]), to_string(part)});
  }
  return p;
}

static string guard(const std::function<string()>& f) {
  try {
    return f();
  } catch (const std::exception& e) {
    return string("threw ") + e.what();
  }
}

// runs a, then b, in threads of their own without anything between them that orders them
struct Two {
  std::mutex mx;
  std::condition_variable cv;
  int round = 0, done = 0;
  const std::function<string()>*a = nullptr, *b = nullptr;
  string ra, rb;
  std::atomic<int> stage{0};
  // the system call itself, which the race detector does not take for synchronisation
  void wait(int n) {
    for (int v; (v = stage.load(std::memory_order_relaxed)) < n;) syscall(SYS_futex, &stage, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
  }
  void set(int n) {
    stage.store(n, std::memory_order_relaxed);
    syscall(SYS_futex, &stage, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
  }
  void work(bool first) {
    for (int r = 1;; ++r) {
      {
        std::unique_lock l(mx);
        cv.wait(l, [&] { return round == r; });
      }
      if (first) {
        ra = guard(*a);
        set(1);
        wait(2);  // what it did is remembered until the other one is through
      } else {
        wait(1);
        rb = guard(*b);
        set(2);
      }
      {
        std::unique_lock l(mx);
        ++done;
        cv.notify_all();
      }
    }
  }
  Two() {
    for (bool first : {true, false}) std::thread([this, first] { work(first); }).detach();
  }
  std::pair<string, string> run(const std::function<string()>& x, const std::function<string()>& y) {
    std::unique_lock l(mx);
    a = &x;
    b = &y;
    stage = 0;
    done = 0;
    ++round;
    cv.notify_all();
    cv.wait(l, [&] { return done == 2; });
    return {ra, rb};
  }
};
static std::pair<string, string> together(const std::function<string()>& a, const std::function<string()>& b) {
  static Two* two = new Two;
  return two->run(a, b);
}

struct Nowhere : std::streambuf {
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  int overflow(int c) override { return c == EOF ? 0 : c; }
};

static void run(mc::MC& m) {
  int enough = 20;  // cases with races: reporting them is slow
  const auto ps = programs(m.thorough);
  // in processes of their own: nothing has been used before
  m.phase("first use");
  for (std::size_t i = 0; i < ps.size(); ++i) {
    if (ps[i].key[0] == "dump") continue;
    if (!m.next()) continue;
    vector<char*> args = {const_cast<char*>("threads"), const_cast<char*>("--cold")};
    for (auto& k : ps[i].key) args.push_back(const_cast<char*>(k.c_str()));
    args.push_back(nullptr);
    m.trace();
    m.trans(2);
    m.eval(true);
    m.state(mc::hash("cold " + ps[i].name));
    const pid_t pid = fork();
    if (pid == 0) {
      execv("/proc/self/exe", args.data());
      _exit(99);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    m.outcome(static_cast<std::uint64_t>(rc));
    if (rc == 77) m.fail("race:first-use", "two threads using it for the first time touch the same memory", "twice at once: " + ps[i].name);
    else if (rc == 78) m.fail("result:first-use", "the two threads get different results", "twice at once: " + ps[i].name);
    else if (rc != 0) {
      fprintf(stderr, "cold start of %s: %d\n", ps[i].name.c_str(), rc);
      _exit(3);
    }
  }
  m.phase("pairs");
  vector<string> alone;
  for (auto& p : ps) {
    if (getenv("MC_TIME")) fprintf(stderr, "%ld %s\n", static_cast<long>(clock()), p.name.c_str());
    alone.push_back(guard(p.run));
    m.beat();
  }
  for (std::size_t i = 0; i < ps.size(); ++i)
    for (std::size_t j = 0; j < ps.size(); ++j) {
      if (ps[i].key[0] == "dump" && ps[j].key[0] == "dump") continue;  // both print to std::cout
      if (enough <= 0 || !m.next()) continue;
      auto where = [&] { return "at once: " + ps[i].name + " | " + ps[j].name; };
      g_races = 0;
      const auto [ra, rb] = together(ps[i].run, ps[j].run);
      m.trace();
      m.trans(2);
      m.eval(true);
      m.state(mc::mix(mc::mix(i, j), mc::hash(ra, mc::hash(rb))));
      m.outcome(mc::mix(static_cast<std::uint64_t>(g_races), mc::hash(ra)));
      m.sample(where);
      if (g_races && enough-- > 0) m.fail("race", "two threads touch the same memory: " + race(), where());
      if (ra != alone[i] || rb != alone[j]) m.fail("result", "a thread gets another result than alone", where());
    }
  // const members of one object
  m.phase("one box");
  using Use = std::function<string(const Box&)>;
  const vector<std::pair<string, Use>> uses = {
      {"toStringOnlyData", [](const Box& b) { return b.toStringOnlyData(); }},
      {"toString", [](const Box& b) { return b.toString(); }},
      {"getDataSize", [](const Box& b) { return to_string(b.getDataSize()); }},
      {"writeData", [](const Box& b) {
         std::ostringstream os;
         b.writeData(os);
         return os.str();
       }},
      {"getType", [](const Box& b) { return b.getType().toString(); }},
  };
  for (auto& k : all_kinds()) {
    const auto paths = short_structures(k, m.thorough ? 40 : 8);
    for (auto& path : paths)
      for (std::size_t u = 0; u < uses.size(); ++u)
        for (std::size_t v = 0; v < uses.size(); ++v) {
          if (enough <= 0 || !m.next()) continue;
          Ch c;
          c.path = path;
          const Case x = k.gen(c), fresh = [&] { Ch d; d.path = c.path; return k.gen(d); }();
          for (auto* y : {&x, &fresh}) y->box->setOffsetAndDataSize(0, y->box->getDataSize());
          auto where = [&] { return "at once on one box " + k.name + ": " + uses[u].first + " | " + uses[v].first; };
          g_races = 0;
          const auto [ra, rb] = together([&] { return uses[u].second(*x.box); }, [&] { return uses[v].second(*x.box); });
          m.trace();
          m.trans(2);
          m.eval(true);
          m.state(mc::hash(where(), mc::hash(from_path(path))));
          m.sample(where);
          if (g_races && enough-- > 0) m.fail("race:const", "const members touch the same memory: " + race(), where());
          if (ra != uses[u].second(*fresh.box) || rb != uses[v].second(*fresh.box)) m.fail("result:const", "a thread gets another result than alone", where());
        }
  }
}

int main(int argc, char** argv) {
  static Nowhere nowhere;
  std::cout.rdbuf(&nowhere);
  spdlog::set_level(spdlog::level::off);
  find_cxx();
  // tables the C++ library fills at first use without synchronisation
  for (auto& l : {std::locale(), std::locale::classic()})
    for (int c = 0; c < 256; ++c)
      for (char other : {'\0', ' '}) {
        std::use_facet<std::ctype<char>>(l).narrow(static_cast<char>(c), other);
        std::use_facet<std::ctype<char>>(l).widen(static_cast<char>(c));
      }
  if (argc > 3 && string(argv[1]) == "--cold") {
    const vector<string> key(argv + 2, argv + argc);
    auto one = [&] { return program(key); };
    const auto [a, b] = together(one, one);
    _exit(g_races ? 77 : a != b ? 78 : 0);
  }
  mc::MC m(argc, argv);
  if (m.prop == "P32") run(m);
  return m.finish();
}
