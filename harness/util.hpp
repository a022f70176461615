// Byte-level helpers of the harnesses, independent of the library under test.
#pragma once

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <locale>
#include <sstream>
#include <streambuf>
#include <string>
#include <unordered_map>
#include <vector>

namespace ut {

using Bytes = std::vector<std::uint8_t>;

struct Enc {  // big-endian encoder
  Bytes v;
  Enc& u8(std::uint64_t x) { v.push_back(static_cast<std::uint8_t>(x)); return *this; }
  Enc& un(std::uint64_t x, int bytes) {
    for (int i = bytes - 1; i >= 0; --i) v.push_back(static_cast<std::uint8_t>(x >> (8 * i)));
    return *this;
  }
  Enc& u16(std::uint64_t x) { return un(x, 2); }
  Enc& u24(std::uint64_t x) { return un(x, 3); }
  Enc& u32(std::uint64_t x) { return un(x, 4); }
  Enc& u64(std::uint64_t x) { return un(x, 8); }
  Enc& bytes(const Bytes& b) { v.insert(v.end(), b.begin(), b.end()); return *this; }
  template <std::size_t N>
  Enc& bytes(const std::array<std::uint8_t, N>& b) { v.insert(v.end(), b.begin(), b.end()); return *this; }
  Enc& str(const std::string& s) { v.insert(v.end(), s.begin(), s.end()); return *this; }
  Enc& cstr(const std::string& s) { str(s); return u8(0); }
  Enc& zero(std::size_t n) { v.insert(v.end(), n, 0); return *this; }
  Enc& full(unsigned version, std::uint32_t flags) { u8(version); return u24(flags); }
  // bits: most significant first, accumulated until a byte is full
  int nbit = 0;
  unsigned acc = 0;
  Enc& bits(std::uint64_t x, int n) {
    for (int i = n - 1; i >= 0; --i) {
      acc = (acc << 1) | ((x >> i) & 1);
      if (++nbit == 8) {
        v.push_back(static_cast<std::uint8_t>(acc));
        nbit = 0;
        acc = 0;
      }
    }
    return *this;
  }
};

inline std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline std::uint64_t be(const std::string& s, std::size_t o, int n) {
  std::uint64_t r = 0;
  for (int i = 0; i < n; ++i) r = (r << 8) | static_cast<std::uint8_t>(s.at(o + i));
  return r;
}

inline Bytes box(const std::string& type, const Bytes& data) {
  Enc e;
  e.u32(data.size() + 8).str(type).bytes(data);
  return e.v;
}
inline Bytes cat(std::initializer_list<Bytes> l) {
  Bytes r;
  for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
  return r;
}

// proleptic Gregorian date of a number of days since 1970-01-01
struct Date {
  int y, m, d;
};
inline Date civil(std::int64_t z) {
  // walked in whole years and months: slow, obvious
  int y = 1970;
  auto leap = [](int yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
  while (z < 0) {
    --y;
    z += leap(y) ? 366 : 365;
  }
  while (z >= (leap(y) ? 366 : 365)) {
    z -= leap(y) ? 366 : 365;
    ++y;
  }
  static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int m = 0;
  for (;; ++m) {
    int n = md[m] + (m == 1 && leap(y) ? 1 : 0);
    if (z < n) break;
    z -= n;
  }
  return {y, m + 1, static_cast<int>(z) + 1};
}

// streams made from now on group digits one by one, as those of a program with a locale of its own may
struct OddPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
};
inline void odd_locale() { std::locale::global(std::locale(std::locale::classic(), new OddPunct)); }

// A file in memory in which runs of zeros take no room; positions may be anywhere in 63 bits.
class SparseBuf : public std::streambuf {
 public:
  static constexpr std::uint64_t PAGE = 4096;
  std::unordered_map<std::uint64_t, std::array<std::uint8_t, PAGE>> pages;
  std::uint64_t size = 0;
  std::uint64_t pos = 0;

  std::uint8_t at(std::uint64_t o) const {
    auto it = pages.find(o / PAGE);
    return it == pages.end() ? 0 : it->second[o % PAGE];
  }
  std::uint64_t be(std::uint64_t o, int n) const {
    std::uint64_t r = 0;
    for (int i = 0; i < n; ++i) r = (r << 8) | at(o + i);
    return r;
  }
  std::string str(std::uint64_t o, std::uint64_t n) const {
    std::string s;
    for (std::uint64_t i = 0; i < n; ++i) s += static_cast<char>(at(o + i));
    return s;
  }
  static bool zero(const char* p, std::uint64_t n) {
    return n == 0 || (p[0] == 0 && memcmp(p, p + 1, n - 1) == 0);
  }
  void put(const char* p, std::uint64_t n) {
    while (n > 0) {
      const std::uint64_t pg = pos / PAGE, off = pos % PAGE;
      std::uint64_t k = std::min(n, PAGE - off);
      auto it = pages.find(pg);
      if (it == pages.end()) {
        // skip over a long run of zeros in one go
        if (zero(p, k)) {
          pos += k;
          p += k;
          n -= k;
          continue;
        }
        it = pages.emplace(pg, std::array<std::uint8_t, PAGE>{}).first;
      }
      memcpy(it->second.data() + off, p, k);
      pos += k;
      p += k;
      n -= k;
    }
    size = std::max(size, pos);
  }
  std::uint64_t get(char* p, std::uint64_t n) {
    n = pos < size ? std::min(n, size - pos) : 0;
    for (std::uint64_t k = 0; k < n;) {
      const std::uint64_t off = pos % PAGE, c = std::min(n - k, PAGE - off);
      auto it = pages.empty() ? pages.end() : pages.find(pos / PAGE);
      if (it == pages.end())
        memset(p + k, 0, c);
      else
        memcpy(p + k, it->second.data() + off, c);
      pos += c;
      k += c;
    }
    return n;
  }
  std::uint64_t hash(std::uint64_t from = 0) const {
    std::map<std::uint64_t, const std::array<std::uint8_t, PAGE>*> m;
    for (auto& [k, v] : pages)
      if (!zero(reinterpret_cast<const char*>(v.data()), PAGE)) m[k] = &v;
    std::uint64_t h = size + from;
    for (auto& [k, v] : m) {
      h = h * 1099511628211ULL ^ k;
      for (auto c : *v) h = (h ^ c) * 1099511628211ULL;
    }
    return h;
  }

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    put(s, static_cast<std::uint64_t>(n));
    return n;
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    put(&ch, 1);
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    return static_cast<std::streamsize>(get(s, static_cast<std::uint64_t>(n)));
  }
  int_type underflow() override { return pos < size ? static_cast<int_type>(at(pos)) : traits_type::eof(); }
  int_type uflow() override {
    if (pos >= size) return traits_type::eof();
    return static_cast<int_type>(at(pos++));
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    std::int64_t b = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? static_cast<std::int64_t>(pos) : static_cast<std::int64_t>(size);
    b += off;
    if (b < 0) return pos_type(off_type(-1));
    pos = static_cast<std::uint64_t>(b);
    return pos_type(off_type(b));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

}  // namespace ut
