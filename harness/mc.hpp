// Exploration driver shared by all harnesses: deterministic case numbering, sharding over processes,
// state/transition/trace accounting, violation reports, watchdog and memory accounting.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline std::uint64_t hash(const std::string& s, std::uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h, s.size());
}
inline std::uint64_t hash(const std::vector<std::uint8_t>& s) {
  return hash(std::string(s.begin(), s.end()));
}

inline std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  }
  return r + "\"";
}

inline std::string hex(const std::vector<std::uint8_t>& v, std::size_t max = 256) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < v.size() && i < max; ++i) {
    r += d[v[i] >> 4];
    r += d[v[i] & 15];
  }
  if (v.size() > max) r += "...(" + std::to_string(v.size()) + " bytes)";
  return r;
}
inline std::string hex(const std::string& s, std::size_t max = 256) {
  return hex(std::vector<std::uint8_t>(s.begin(), s.end()), max);
}

struct Shared {  // mmapped file the driver reads after a crash
  std::atomic<std::uint64_t> current;
  std::atomic<std::uint64_t> beat;
  char phase[112];
};

class MC {
 public:
  std::string prop, tier = "quick", outdir = ".";
  std::uint64_t shard = 0, nshards = 1;
  std::int64_t only = -1;
  double budget = 1e9;
  bool thorough = false;
  bool exhaustive = true;

  std::uint64_t idx = 0;  // number of the current case
  std::uint64_t n_transitions = 0, n_traces = 0, n_eval = 0, n_nontrivial = 0;
  std::unordered_set<std::uint64_t> states, outcomes;
  std::map<std::string, std::uint64_t> counters;
  std::vector<std::string> samples;
  struct Violation {
    std::uint64_t idx;
    std::string key, msg, desc;
  };
  std::vector<Violation> violations;
  std::map<std::string, std::uint64_t> viol_count;

  MC(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--prop") prop = v;
      else if (a == "--tier") tier = v;
      else if (a == "--shard") shard = std::stoull(v);
      else if (a == "--nshards") nshards = std::stoull(v);
      else if (a == "--out") outdir = v;
      else if (a == "--only") only = std::stoll(v);
      else if (a == "--budget") budget = std::stod(v);
      else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(3); }
    }
    thorough = tier == "thorough";
    start_ = std::chrono::steady_clock::now();
    const std::string p = outdir + "/cur." + std::to_string(shard);
    int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("cur"); exit(3); }
    shm_ = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
    watchdog_ = std::thread([this] { watch(); });
    watchdog_.detach();
  }

  void phase(const std::string& s) { strncpy(shm_->phase, s.c_str(), sizeof(shm_->phase) - 1); }

  // Starts the next case; true if this process is to run it.
  bool next() {
    const std::uint64_t i = ++idx;
    if (only >= 0) {
      if (i != static_cast<std::uint64_t>(only)) return false;
    } else if (i % nshards != shard) {
      return false;
    }
    if ((++ran_ & 255) == 0 && elapsed() > budget) {
      exhaustive = false;
      over_ = true;
    }
    if (over_) return false;
    shm_->current = i;
    shm_->beat++;
    return true;
  }
  bool over() const { return over_; }
  void beat() { shm_->beat++; }
  double elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - start_).count();
  }
  void state(std::uint64_t h) { states.insert(h); }
  void trans(std::uint64_t n = 1) { n_transitions += n; }
  void trace(std::uint64_t n = 1) { n_traces += n; }
  void outcome(std::uint64_t h) { outcomes.insert(h); }
  void eval(bool nontrivial) {
    ++n_eval;
    if (nontrivial) ++n_nontrivial;
  }
  void count(const std::string& k, std::uint64_t n = 1) { counters[k] += n; }
  // keep a few spread-out samples
  template <typename Fn>
  void sample(Fn f) {
    ++seen_;
    if ((seen_ & (seen_ - 1)) == 0 && samples.size() < 24) samples.push_back(f());
  }
  void fail(const std::string& key, const std::string& msg, const std::string& desc) {
    static const bool stop = getenv("MC_STOP") != nullptr;  // development only: the first violation is enough
    if (stop) {
      fprintf(stderr, "FAIL %s %s\n", key.c_str(), msg.substr(0, 200).c_str());
      _exit(10);
    }
    if (viol_count[key]++ < 3 && violations.size() < 600) violations.push_back({idx, key, msg, desc});
  }

  int finish() {
    shm_->current = 0;
    const std::string p = outdir + "/res." + std::to_string(shard);
    FILE* f = fopen(p.c_str(), "w");
    if (!f) { perror("res"); return 3; }
    fprintf(f, "{\"cases\":%llu,\"ran\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"exhaustive\":%s,",
            (unsigned long long)idx, (unsigned long long)ran_, (unsigned long long)n_transitions,
            (unsigned long long)n_traces, (unsigned long long)n_eval, (unsigned long long)n_nontrivial,
            exhaustive ? "true" : "false");
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto& [k, v] : counters) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (std::size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    for (std::size_t i = 0; i < violations.size(); ++i) {
      auto& v = violations[i];
      fprintf(f, "%s{\"idx\":%llu,\"key\":%s,\"count\":%llu,\"msg\":%s,\"desc\":%s}", i ? "," : "",
              (unsigned long long)v.idx, jesc(v.key).c_str(), (unsigned long long)viol_count[v.key],
              jesc(v.msg.substr(0, 4000)).c_str(), jesc(v.desc.substr(0, 8000)).c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
    dump(states, "states");
    dump(outcomes, "outcomes");
    fflush(stdout);
    _exit(violations.empty() ? 0 : 10);
  }

 private:
  void dump(const std::unordered_set<std::uint64_t>& s, const char* name) {
    const std::string p = outdir + "/" + name + "." + std::to_string(shard);
    FILE* f = fopen(p.c_str(), "w");
    std::vector<std::uint64_t> v(s.begin(), s.end());
    if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
    fclose(f);
  }
  void watch() {
    std::uint64_t last = ~0ULL;
    int same = 0;
    for (;;) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      const std::uint64_t b = shm_->beat;
      if (b == last && shm_->current != 0) {
        // judged by CPU time of the process rather than by the wall clock, so that a busy machine is no hang
        struct rusage ru;
        getrusage(RUSAGE_SELF, &ru);
        const double cpu = double(ru.ru_utime.tv_sec) + double(ru.ru_utime.tv_usec) * 1e-6 +
                           double(ru.ru_stime.tv_sec) + double(ru.ru_stime.tv_usec) * 1e-6;
        if (same == 0) cpu0_ = cpu;
        ++same;
        if (cpu - cpu0_ > hang_cpu || same > hang_wall) {
          const char m[] = "mc: hang\n";
          (void)!write(2, m, sizeof m - 1);
          syscall(SYS_exit_group, 42);  // whatever is locked
        }
      } else {
        same = 0;
        last = b;
      }
    }
  }

 public:
  double hang_cpu = 25;
  int hang_wall = 240;

 private:
  Shared* shm_;
  std::thread watchdog_;
  std::uint64_t ran_ = 0, seen_ = 0;
  bool over_ = false;
  double cpu0_ = 0;
  std::chrono::steady_clock::time_point start_;
};

// ---- odometer over finite alphabets ----
// Enumerates all vectors d with d[i] in [0, radix[i]).
inline void product(const std::vector<std::size_t>& radix, const std::function<void(const std::vector<std::size_t>&)>& f) {
  std::vector<std::size_t> d(radix.size(), 0);
  for (auto r : radix)
    if (r == 0) return;
  for (;;) {
    f(d);
    std::size_t i = d.size();
    while (i > 0) {
      --i;
      if (++d[i] < radix[i]) break;
      d[i] = 0;
      if (i == 0) return;
    }
    if (d.empty()) return;
  }
}

// Enumerates, over fields with radix[i] values: the default point, every single deviation, and every pair of
// deviations (exhaustive pairwise neighbourhood of d = 0).
inline void pairwise(const std::vector<std::size_t>& radix, const std::function<void(const std::vector<std::size_t>&)>& f) {
  std::vector<std::size_t> d(radix.size(), 0);
  f(d);
  for (std::size_t i = 0; i < radix.size(); ++i)
    for (std::size_t a = 1; a < radix[i]; ++a) {
      d[i] = a;
      f(d);
      for (std::size_t j = i + 1; j < radix.size(); ++j)
        for (std::size_t b = 1; b < radix[j]; ++b) {
          d[j] = b;
          f(d);
          d[j] = 0;
        }
      d[i] = 0;
    }
}

}  // namespace mc
