// P15 bit-level writing and reading, P16 strings, byte runs, variable-length numbers and big-endian conversions.
//
// The model is a string of bits; every sequence of calls up to the stated length runs on the real code next to it.
#include "mc.hpp"
#include "util.hpp"

#include <array>
#include <functional>
#include <limits>

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/endian/endian.hpp"

using namespace shiguredo::mp4;
using ut::Bytes;

using Bits = std::vector<bool>;

static Bytes pack(const Bits& b) {  // the last byte padded with zeros
  Bytes r((b.size() + 7) / 8, 0);
  for (std::size_t i = 0; i < b.size(); ++i)
    if (b[i]) r[i / 8] |= static_cast<std::uint8_t>(0x80 >> (i % 8));
  return r;
}
static void put(Bits* b, std::uint64_t v, unsigned n) {
  for (unsigned i = n; i-- > 0;) b->push_back(i < 64 && ((v >> i) & 1) != 0);
}

enum K { U8, U16, U32, U64, I8, I16, I32, I64, BOOL, BIT, RAW, BYTES };
static const char* KN[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "bit", "raw", "bytes"};

struct Op {
  K k;
  unsigned size;    // bits; bytes for BYTES
  std::uint64_t v;  // raw bits of the value (sign included)
};
static unsigned type_bits(K k) { return 8U << (k % 4); }

static std::string name(const Op& o) {
  char b[64];
  snprintf(b, sizeof b, "%s(%u)=%llx", KN[o.k], o.size, static_cast<unsigned long long>(o.v));
  return b;
}
static std::string name(const std::vector<Op>& l) {
  std::string s;
  for (auto& o : l) s += (s.empty() ? "" : " ") + name(o);
  return s;
}

static Bytes raw_bytes(const Op& o) {  // right-aligned, as writeBits takes and readBits gives them
  Bytes r((o.size + 7) / 8, 0);
  for (unsigned i = 0; i < o.size && i < 64; ++i)
    if ((o.v >> i) & 1) r[r.size() - 1 - i / 8] |= static_cast<std::uint8_t>(1U << (i % 8));
  return r;
}
static Bytes run_bytes(const Op& o) {
  Bytes r;
  for (unsigned i = 0; i < o.size; ++i) r.push_back(static_cast<std::uint8_t>(o.v + 29 * i));
  return r;
}
static Bits bits_of(const Op& o) {
  Bits b;
  if (o.k == BYTES) {
    for (auto x : run_bytes(o)) put(&b, x, 8);
  } else {
    put(&b, o.v, o.size);
  }
  return b;
}
static std::int64_t sign(const Op& o) {
  if (o.size < 64 && ((o.v >> (o.size - 1)) & 1)) return static_cast<std::int64_t>(o.v | (~0ULL << o.size));
  return static_cast<std::int64_t>(o.v);
}

// performs one write; false if it was refused
static bool do_write(bitio::Writer* w, const Op& o, std::uint64_t* wbits) {
  switch (o.k) {
    case U8: *wbits = bitio::write_uint<std::uint8_t>(w, static_cast<std::uint8_t>(o.v), o.size); break;
    case U16: *wbits = bitio::write_uint<std::uint16_t>(w, static_cast<std::uint16_t>(o.v), o.size); break;
    case U32: *wbits = bitio::write_uint<std::uint32_t>(w, static_cast<std::uint32_t>(o.v), o.size); break;
    case U64: *wbits = bitio::write_uint<std::uint64_t>(w, o.v, o.size); break;
    case I8: *wbits = bitio::write_int<std::int8_t>(w, static_cast<std::int8_t>(sign(o)), o.size); break;
    case I16: *wbits = bitio::write_int<std::int16_t>(w, static_cast<std::int16_t>(sign(o)), o.size); break;
    case I32: *wbits = bitio::write_int<std::int32_t>(w, static_cast<std::int32_t>(sign(o)), o.size); break;
    case I64: *wbits = bitio::write_int<std::int64_t>(w, sign(o), o.size); break;
    case BOOL: *wbits = bitio::write_bool(w, o.v != 0); break;
    case BIT: w->writeBit(o.v != 0), *wbits = 1; break;
    case RAW: w->writeBits(raw_bytes(o), o.size), *wbits = o.size; break;
    case BYTES: *wbits = 8 * static_cast<std::uint64_t>(w->write(run_bytes(o))); break;
  }
  return true;
}

// performs one read; what was wrong with the result, if anything
template <typename T>
static std::string got_uint(bitio::Reader* r, const Op& o) {
  T x = static_cast<T>(0xa5a5a5a5a5a5a5a5ULL);
  const auto n = bitio::read_uint<T>(r, &x, o.size);
  if (n != o.size) return "reported " + std::to_string(n) + " bits";
  if (x != static_cast<T>(o.v)) return "read " + std::to_string(x);
  return "";
}
template <typename T>
static std::string got_int(bitio::Reader* r, const Op& o) {
  T x = static_cast<T>(0xa5a5a5a5a5a5a5a5ULL);
  const auto n = bitio::read_int<T>(r, &x, o.size);
  if (n != o.size) return "reported " + std::to_string(n) + " bits";
  if (static_cast<std::int64_t>(x) != sign(o)) return "read " + std::to_string(x) + " instead of " + std::to_string(sign(o));
  return "";
}
static std::string do_read(bitio::Reader* r, const Op& o) {
  switch (o.k) {
    case U8: return got_uint<std::uint8_t>(r, o);
    case U16: return got_uint<std::uint16_t>(r, o);
    case U32: return got_uint<std::uint32_t>(r, o);
    case U64: return got_uint<std::uint64_t>(r, o);
    case I8: return got_int<std::int8_t>(r, o);
    case I16: return got_int<std::int16_t>(r, o);
    case I32: return got_int<std::int32_t>(r, o);
    case I64: return got_int<std::int64_t>(r, o);
    case BOOL: {
      bool b = o.v == 0;
      const auto n = bitio::read_bool(r, &b);
      return n != 1 ? "reported " + std::to_string(n) + " bits" : b != (o.v != 0) ? "read the other value" : "";
    }
    case BIT: return r->readBit() != (o.v != 0) ? "read the other value" : "";
    case RAW: {
      Bytes d(5, 0xff);
      r->readBits(&d, o.size);
      return d != raw_bytes(o) ? "read " + mc::hex(ut::str(d)) : "";
    }
    case BYTES: {
      Bytes d(o.size, 0xcc);
      const auto n = r->read(&d);
      if (n != static_cast<std::streamsize>(o.size)) return "reported " + std::to_string(n) + " bytes";
      return d != run_bytes(o) ? "read " + mc::hex(ut::str(d)) : "";
    }
  }
  return "";
}

static void sequence(mc::MC& m, const std::vector<Op>& l) {
  if (!m.next()) return;
  auto where = [&] { return name(l); };
  m.trace();
  Bits bits;
  std::ostringstream os;
  bitio::Writer w(os);
  std::vector<bool> done;
  for (auto& o : l) {
    const bool refuse = o.k == BYTES && bits.size() % 8 != 0;
    std::uint64_t wbits = 0;
    m.trans();
    bool ok = true;
    try {
      do_write(&w, o, &wbits);
    } catch (const std::exception& e) {
      ok = false;
      if (!refuse) return m.fail("write:refused", name(o) + " refused: " + e.what(), where());
    }
    if (ok && refuse) return m.fail("write:unaligned", "bytes written at bit " + std::to_string(bits.size()), where());
    done.push_back(ok);
    if (ok) {
      const Bits b = bits_of(o);
      bits.insert(bits.end(), b.begin(), b.end());
      if (wbits != b.size()) return m.fail("write:count", name(o) + " reported " + std::to_string(wbits) + " bits", where());
    }
    const std::string full = os.str();
    if (full.size() != bits.size() / 8) return m.fail("write:length", std::to_string(full.size()) + " bytes after " + std::to_string(bits.size()) + " bits", where());
  }
  const Bytes all = pack(bits);
  const std::string want = ut::str(all).substr(0, bits.size() / 8);
  if (os.str() != want) return m.fail("write:bytes", "wrote " + mc::hex(os.str()) + " instead of " + mc::hex(want), where());
  m.state(mc::hash(ut::str(all), bits.size()));
  m.outcome(mc::hash(os.str()));
  m.eval(bits.size() % 8 != 0 || l.size() > 1);
  m.sample(where);
  // the same reads on the whole data, and on every shorter one
  const std::string data = ut::str(all);
  for (std::size_t cut = data.size() + 1; cut-- > 0;) {
    std::istringstream is(data.substr(0, cut));
    bitio::Reader r(is);
    std::size_t pos = 0;
    for (std::size_t i = 0; i < l.size(); ++i) {
      m.trans();
      const std::size_t need = bits_of(l[i]).size();
      const bool refuse = l[i].k == BYTES && pos % 8 != 0;
      const bool enough = pos + need <= 8 * cut;
      if (!done[i] && pos % 8 == 0) break;  // cannot happen: reads follow the writes
      std::string what;
      bool ok = true;
      try {
        what = do_read(&r, l[i]);
      } catch (const std::exception& e) {
        ok = false;
        if (!refuse && enough) return m.fail("read:refused", name(l[i]) + " refused: " + e.what() + " with " + std::to_string(cut) + " bytes of data", where());
      }
      if (refuse) {
        if (ok) return m.fail("read:unaligned", "bytes read at bit " + std::to_string(pos), where());
        continue;
      }
      if (ok && !enough) return m.fail("read:end", name(l[i]) + " read from " + std::to_string(cut) + " bytes of data at bit " + std::to_string(pos), where());
      if (!ok) break;
      if (!what.empty()) return m.fail("read:value", name(l[i]) + " " + what + " with " + std::to_string(cut) + " bytes of data", where());
      pos += need;
      if (is.good() && static_cast<std::size_t>(is.tellg()) != (pos + 7) / 8)
        return m.fail("read:position", "stream at " + std::to_string(is.tellg()) + " after " + std::to_string(pos) + " bits", where());
    }
  }
}

static std::uint64_t mask(unsigned n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
static std::vector<std::uint64_t> values(unsigned n) {
  std::set<std::uint64_t> s;
  for (std::uint64_t v : {0ULL, 1ULL, ~0ULL, 0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL}) s.insert(v & mask(n));
  s.insert(1ULL << (n - 1));
  s.insert(mask(n) >> 1);
  if (n > 8) s.insert(mask(n / 2)), s.insert(~mask(n / 2) & mask(n));
  if (n <= 5)
    for (std::uint64_t v = 0; v <= mask(n); ++v) s.insert(v);
  return {s.begin(), s.end()};
}
static std::uint64_t pattern(std::size_t i, unsigned n) {
  static const std::uint64_t p[] = {0x9d2c5680efc60001ULL, 0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0xffffffffffffffffULL, 0x8000000000000000ULL};
  std::uint64_t v = p[i % 5];
  if (i % 5 == 4) return 1ULL << (n - 1);
  return (v ^ (v >> 29)) & mask(n);
}

static std::vector<Op> every_width() {
  std::vector<Op> r;
  for (int k = U8; k <= I64; ++k)
    for (unsigned n = 1; n <= type_bits(static_cast<K>(k)); ++n) r.push_back({static_cast<K>(k), n, 0});
  r.push_back({BOOL, 1, 0});
  r.push_back({BIT, 1, 0});
  for (unsigned n = 0; n <= 33; ++n) r.push_back({RAW, n, 0});
  for (unsigned n = 0; n <= 4; ++n) r.push_back({BYTES, n, 0});
  return r;
}

struct Step {  // of a reader
  int k;       // 0 bits, 1 bit, 2 bytes, 3 seek from the start, 4 from here, 5 from the end
  unsigned n;
};
static std::string name(const std::vector<Step>& l) {
  static const char* kn[] = {"bits", "bit", "bytes", "seek", "skip", "end"};
  std::string s;
  for (auto& o : l) s += (s.empty() ? "" : " ") + std::string(kn[o.k]) + "(" + std::to_string(o.n) + ")";
  return s;
}

static void reader_history(mc::MC& m, const std::vector<Step>& l) {
  if (!m.next()) return;
  static const std::string data = "\xa1\x3c\x5e\x97\x08\xff\x72\x01";
  auto where = [&] { return "on a reader: " + name(l); };
  m.trace();
  Bits bits;
  for (unsigned char c : data) put(&bits, c, 8);
  std::istringstream is(data);
  bitio::Reader r(is);
  std::size_t pos = 0;
  bool refused = false;
  for (auto& o : l) {
    m.trans();
    bool ok = true;
    std::string what;
    std::size_t next = pos;
    bool expect = true;
    Bytes d;
    std::uint64_t at = 0;
    bool bit = false;
    switch (o.k) {
      case 0:
      case 1: next = pos + o.n, expect = next <= bits.size(); break;
      case 2: next = pos + 8 * o.n, expect = pos % 8 == 0 && next <= bits.size(); break;
      case 3: next = 8 * o.n, expect = next <= bits.size(); break;
      case 4: next = pos + 8 * o.n, expect = pos % 8 == 0 && next <= bits.size(); break;
      case 5: next = bits.size(); break;
    }
    try {
      switch (o.k) {
        case 0: r.readBits(&d, o.n); break;
        case 1: bit = r.readBit(); break;
        case 2: d.resize(o.n), r.read(&d); break;
        case 3: at = r.seek(o.n, std::ios_base::beg); break;
        case 4: at = r.seek(o.n, std::ios_base::cur); break;
        case 5: at = r.seek(0, std::ios_base::end); break;
      }
    } catch (const std::exception& e) {
      ok = false;
      what = e.what();
    }
    m.state(mc::mix(pos * 64 + static_cast<std::size_t>(o.k), o.n));
    if (ok != expect) return m.fail("history:outcome", name({o}) + " at bit " + std::to_string(pos) + (ok ? " accepted" : " refused: " + what), where());
    if (!ok) {
      refused = true;
      // refused for its alignment: nothing has happened; out of data: that is the end
      if ((o.k == 2 || o.k == 4) && pos % 8 != 0) continue;
      break;
    }
    if (o.k >= 3 && at != next / 8) return m.fail("history:seek", name({o}) + " reported position " + std::to_string(at), where());
    if (o.k == 1 && bit != bits[pos]) return m.fail("history:bit", "wrong bit at " + std::to_string(pos), where());
    if (o.k == 0 || o.k == 2) {
      Bytes want((o.n * (o.k == 0 ? 1 : 8) + 7) / 8, 0);
      const std::size_t n = next - pos;
      for (std::size_t i = 0; i < n; ++i)
        if (bits[pos + i]) want[want.size() - 1 - (n - 1 - i) / 8] |= static_cast<std::uint8_t>(1U << ((n - 1 - i) % 8));
      if (d != want) return m.fail("history:data", name({o}) + " at bit " + std::to_string(pos) + " read " + mc::hex(ut::str(d)) + " instead of " + mc::hex(ut::str(want)), where());
    }
    pos = next;
  }
  m.eval(refused);
  m.outcome(pos);
  m.sample(where);
}

static void run_p15(mc::MC& m) {
  const auto ops = every_width();
  m.phase("single fields");
  for (unsigned align = 0; align < 8; ++align)
    for (auto& o : ops)
      for (auto v : o.k == BYTES || o.size == 0 ? std::vector<std::uint64_t>{0x31} : values(o.size)) {
        std::vector<Op> l;
        for (unsigned i = 0; i < align; ++i) l.push_back({BIT, 1, i % 2});
        l.push_back({o.k, o.size, v});
        sequence(m, l);
        l.push_back({BIT, 1, 1});
        sequence(m, l);
      }
  m.phase("pairs of fields");
  for (std::size_t i = 0; i < ops.size(); ++i)
    for (std::size_t j = 0; j < ops.size(); ++j)
      for (std::size_t p = 0; p < (m.thorough ? 5 : 2); ++p) {
        Op a = ops[i], b = ops[j];
        a.v = a.size ? pattern(p + i + j, a.k == BYTES ? 8 : a.size) : 0;
        b.v = b.size ? pattern(3 * p + 2 * j + i, b.k == BYTES ? 8 : b.size) : 0;
        sequence(m, {a, b});
      }
  m.phase("sequences of fields");
  const std::vector<Op> few = {{U8, 1, 1},        {U8, 3, 5},         {U8, 8, 0x9c},      {U16, 9, 0x135},     {U16, 16, 0xfedc},
                               {U32, 5, 0x16},    {U32, 24, 0xabcdef}, {U32, 32, 0x89abcdef}, {U64, 33, 0x1a5a5a5a5}, {U64, 64, 0xf123456789abcdef},
                               {I8, 2, 2},        {I8, 8, 0x80},      {I16, 11, 0x5ff},   {I16, 16, 0xff01},   {I32, 17, 0x10001},
                               {I32, 32, 0xfffffffe}, {I64, 40, 0x8000000001}, {I64, 64, 0x8000000000000001}, {BOOL, 1, 1}, {BIT, 1, 0},
                               {RAW, 12, 0xabc},  {RAW, 20, 0x51234}, {BYTES, 0, 0},      {BYTES, 2, 0xe7}};
  for (std::size_t n = 3; n <= (m.thorough ? 5 : 4); ++n)
    mc::product(std::vector<std::size_t>(n, few.size()), [&](auto& d) {
      std::vector<Op> l;
      for (auto i : d) l.push_back(few[i]);
      sequence(m, l);
    });
  m.phase("histories of a reader");
  const std::vector<Step> steps = {{0, 1}, {0, 4}, {0, 8}, {0, 13}, {1, 1}, {2, 0}, {2, 1}, {2, 3}, {3, 0}, {3, 5}, {3, 9}, {4, 0}, {4, 1}, {4, 3}, {5, 0}};
  for (std::size_t n = 1; n <= (m.thorough ? 6 : 5); ++n)
    mc::product(std::vector<std::size_t>(n, steps.size()), [&](auto& d) {
      std::vector<Step> l;
      for (auto i : d) l.push_back(steps[i]);
      reader_history(m, l);
    });
}

// ------------------------------------------------------------------ P16
// a reader that stands `align` bits into a byte, with `data` to follow
struct Unaligned {
  std::istringstream is;
  bitio::Reader r;
  static std::string shift(const std::string& data, unsigned align) {
    Bits b;
    for (unsigned i = 0; i < align; ++i) b.push_back(i % 3 == 0);
    for (unsigned char c : data) put(&b, c, 8);
    return ut::str(pack(b));
  }
  Unaligned(const std::string& data, unsigned align) : is(shift(data, align)), r(is) {
    for (unsigned i = 0; i < align; ++i) r.readBit();
  }
  // position in whole bytes of the data; the rest of the data read bit by bit
  std::string rest(std::size_t n) {
    Bytes d;
    if (n == 0) return "";
    r.readBits(&d, 8 * n);
    return ut::str(d);
  }
};

// what reading a string of any form has to give: number of bytes consumed, text
static std::pair<std::size_t, std::string> model_string(const std::string& data, std::uint64_t limit_bits) {
  std::size_t n = 0;
  std::string t;
  while (8 * (n + 1) <= limit_bits && n < data.size()) {
    const char c = data[n++];
    if (c == 0) break;
    t += c;
  }
  return {n, t};
}

static void string_case(mc::MC& m, const std::string& data, std::uint64_t limit, unsigned align, bool pascal) {
  if (!m.next()) return;
  auto where = [&] {
    return std::string(pascal ? "read_pascal_string" : "read_string") + " of " + mc::hex(data, 300) + " limit " + std::to_string(limit) + " bits, " + std::to_string(align) + " bits into a byte";
  };
  m.trace();
  m.trans();
  m.state(mc::hash(data, limit * 16 + align * 2 + pascal));
  // the model
  bool error = false;
  std::size_t used;
  std::string text;
  const bool prefixed = pascal && limit >= 16 && !data.empty() && 8ULL * static_cast<unsigned char>(data[0]) + 8 == limit;
  if (prefixed) {
    used = 1 + static_cast<unsigned char>(data[0]);
    error = used > data.size();
    text = error ? "" : data.substr(1, used - 1);
  } else {
    std::tie(used, text) = model_string(data, limit);
    // the data ended before the limit or the end of the text
    error = used == data.size() && 8 * (used + 1) <= limit && (used == 0 || data[used - 1] != 0);
  }
  Unaligned u(data, align);
  std::string got = "left over from before";
  std::uint64_t rbits = 0;
  bool ok = true;
  std::string what;
  try {
    rbits = pascal ? bitio::read_pascal_string(&u.r, &got, limit) : bitio::read_string(&u.r, &got, limit);
  } catch (const std::exception& e) {
    ok = false;
    what = e.what();
  }
  const std::string p = pascal ? "pascal:" : "string:";
  m.eval(!error && used > 0);
  m.outcome(mc::hash(ok ? got : "error", rbits));
  m.sample(where);
  if (ok == error) return m.fail(p + "outcome", ok ? "accepted" : "refused: " + what, where());
  if (!ok) return;
  if (rbits > limit) return m.fail(p + "limit", "took " + std::to_string(rbits) + " bits", where());
  if (got != text) return m.fail(p + "text", "read \"" + mc::hex(got) + "\" instead of \"" + mc::hex(text) + "\"", where());
  if (rbits != 8 * used) return m.fail(p + "count", "reported " + std::to_string(rbits) + " bits instead of " + std::to_string(8 * used), where());
  try {
    if (u.rest(data.size() - used) != data.substr(used)) return m.fail(p + "rest", "what follows is read wrong", where());
  } catch (const std::exception& e) {
    return m.fail(p + "rest", std::string("what follows cannot be read: ") + e.what(), where());
  }
}

static void written_string(mc::MC& m, const std::string& s, unsigned align, bool pascal) {
  if (!m.next()) return;
  auto where = [&] {
    return std::string(pascal ? "write_pascal_string" : "write_string") + " of " + std::to_string(s.size()) + " bytes " + mc::hex(s, 40) + ", " + std::to_string(align) + " bits into a byte";
  };
  m.trace();
  m.trans(2);
  std::ostringstream os;
  bitio::Writer w(os);
  for (unsigned i = 0; i < align; ++i) w.writeBit(i % 3 == 0);
  std::uint64_t wbits = 0;
  bool ok = true;
  try {
    wbits = pascal ? bitio::write_pascal_string(&w, s) : bitio::write_string(&w, s);
  } catch (const std::exception&) {
    ok = false;
  }
  m.state(mc::hash(s, align * 2 + pascal));
  m.eval(ok);
  const std::string p = pascal ? "write_pascal:" : "write_string:";
  if (ok != (!pascal || s.size() < 256)) return m.fail(p + "outcome", ok ? "accepted" : "refused", where());
  if (!ok) {
    if (!os.str().empty()) m.fail(p + "partial", "refused, but something was written", where());
    return;
  }
  for (unsigned i = align; i % 8 != 0; ++i) w.writeBit(false);
  const std::string data = pascal ? std::string(1, static_cast<char>(s.size())) + s : s + std::string(1, '\0');
  if (wbits != 8 * data.size()) return m.fail(p + "count", "reported " + std::to_string(wbits) + " bits", where());
  if (os.str() != Unaligned::shift(data, align)) return m.fail(p + "bytes", "wrote " + mc::hex(os.str()), where());
  // and back, with something behind it
  Unaligned u(data + "zz", align);
  std::string got;
  try {
    const auto rbits = pascal ? bitio::read_pascal_string(&u.r, &got, 8 * data.size()) : bitio::read_string(&u.r, &got, 8 * data.size() + 16);
    if (rbits != wbits || got != s) return m.fail(p + "back", "read back as " + mc::hex(got, 40) + " from " + std::to_string(rbits) + " bits", where());
    if (u.rest(2) != "zz") return m.fail(p + "back", "what follows is read wrong", where());
  } catch (const std::exception& e) {
    return m.fail(p + "back", std::string("cannot be read back: ") + e.what(), where());
  }
}

template <typename T>
static void vector_case(mc::MC& m, std::size_t n, std::size_t want, unsigned align, std::uint64_t v) {
  if (!m.next()) return;
  const std::size_t w = sizeof(T);
  auto where = [&] { return "vector of " + std::to_string(n) + " numbers of " + std::to_string(w) + " bytes, " + std::to_string(want) + " wanted, " + std::to_string(align) + " bits into a byte"; };
  m.trace();
  m.trans(2);
  std::vector<T> x;
  Bits b;
  for (unsigned i = 0; i < align; ++i) b.push_back(i % 3 == 0);
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(static_cast<T>(v * (2 * i + 1) + (v >> 7)));
    put(&b, x.back(), 8 * w);
  }
  m.state(mc::hash(ut::str(pack(b)), n * 64 + w * 8 + want));
  std::ostringstream os;
  bitio::Writer wr(os);
  for (unsigned i = 0; i < align; ++i) wr.writeBit(i % 3 == 0);
  const auto wbits = bitio::write_vector_uint<T>(&wr, x);
  for (unsigned i = align; i % 8 != 0; ++i) wr.writeBit(false);
  if (wbits != 8 * w * n) return m.fail("vector:count", "reported " + std::to_string(wbits) + " bits", where());
  if (os.str() != ut::str(pack(b))) return m.fail("vector:bytes", "wrote " + mc::hex(os.str()), where());
  std::istringstream is(os.str());
  bitio::Reader r(is);
  for (unsigned i = 0; i < align; ++i) r.readBit();
  std::vector<T> y(3, 77);
  bool ok = true;
  std::uint64_t rbits = 0;
  try {
    rbits = bitio::read_vector_uint<T>(&r, want, &y);
  } catch (const std::exception&) {
    ok = false;
  }
  m.eval(ok && want > 0);
  m.sample(where);
  if (ok != (want <= n)) return m.fail("vector:outcome", ok ? "accepted" : "refused", where());
  if (!ok) return;
  x.resize(want);
  if (y != x || rbits != 8 * w * want) m.fail("vector:back", "read back otherwise, " + std::to_string(rbits) + " bits", where());
}

template <typename T>
static void varint_write(mc::MC& m, std::uint64_t v, unsigned size, unsigned align) {
  if (!m.next()) return;
  auto where = [&] { return "write_uvarint of " + std::to_string(v) + " as " + std::to_string(8 * sizeof(T)) + "-bit number in " + std::to_string(size) + " bytes, " + std::to_string(align) + " bits into a byte"; };
  m.trace();
  m.trans(2);
  Bits b;
  for (unsigned i = 0; i < align; ++i) b.push_back(i % 3 == 0);
  for (unsigned i = size; i-- > 0;) b.push_back(i > 0), put(&b, v >> (7 * i), 7);
  m.state(mc::hash(ut::str(pack(b)), sizeof(T) * 8 + align));
  std::ostringstream os;
  bitio::Writer w(os);
  for (unsigned i = 0; i < align; ++i) w.writeBit(i % 3 == 0);
  std::uint64_t wbits = 0;
  try {
    wbits = size == sizeof(T) && v % 2 == 0 ? bitio::write_uvarint<T>(&w, static_cast<T>(v)) : bitio::write_uvarint<T>(&w, static_cast<T>(v), static_cast<std::uint8_t>(size));
  } catch (const std::exception& e) {
    return m.fail("uvarint:refused", e.what(), where());
  }
  for (unsigned i = align; i % 8 != 0; ++i) w.writeBit(false);
  m.eval(v > 127);
  m.sample(where);
  if (wbits != 8 * size) return m.fail("uvarint:count", "reported " + std::to_string(wbits) + " bits", where());
  if (os.str() != ut::str(pack(b))) return m.fail("uvarint:bytes", "wrote " + mc::hex(os.str()) + " instead of " + mc::hex(ut::str(pack(b))), where());
  std::istringstream is(os.str());
  bitio::Reader r(is);
  for (unsigned i = 0; i < align; ++i) r.readBit();
  T got = 99;
  try {
    const auto rbits = bitio::read_uvarint<T>(&r, &got);
    if (got != static_cast<T>(v) || rbits != 8 * size) return m.fail("uvarint:back", "read back as " + std::to_string(got) + " from " + std::to_string(rbits) + " bits", where());
  } catch (const std::exception& e) {
    return m.fail("uvarint:back", std::string("cannot be read back: ") + e.what(), where());
  }
}

template <typename T>
static void varint_read(mc::MC& m, const std::string& data) {
  // the number, if it ends in the data and fits
  unsigned __int128 v = 0;
  std::size_t n = 0;
  bool whole = false;
  while (n < data.size() && !whole) {
    v = (v << 7) | (static_cast<unsigned char>(data[n]) & 0x7f);
    whole = (static_cast<unsigned char>(data[n++]) & 0x80) == 0;
  }
  if (whole && v > std::numeric_limits<T>::max()) return;
  if (!m.next()) return;
  auto where = [&] { return "read_uvarint of " + mc::hex(data) + " as " + std::to_string(8 * sizeof(T)) + "-bit number"; };
  m.trace();
  m.trans();
  m.state(mc::hash(data, sizeof(T)));
  std::istringstream is(data);
  bitio::Reader r(is);
  T got = 99;
  std::uint64_t rbits = 0;
  bool ok = true;
  try {
    rbits = bitio::read_uvarint<T>(&r, &got);
  } catch (const std::exception&) {
    ok = false;
  }
  m.eval(whole);
  m.outcome(ok ? static_cast<std::uint64_t>(got) : ~0ULL);
  if (ok != whole) return m.fail("uvarint:outcome", ok ? "accepted" : "refused", where());
  if (ok && (got != static_cast<T>(v) || rbits != 8 * n)) m.fail("uvarint:value", "read as " + std::to_string(got) + " from " + std::to_string(rbits) + " bits", where());
}

static void endian_case(mc::MC& m, std::uint64_t v) {
  if (!m.next()) return;
  m.trace();
  m.trans(6);
  m.state(v);
  m.eval(v != 0);
  const std::uint32_t lo = static_cast<std::uint32_t>(v);
  std::array<std::uint8_t, 8> b8;
  std::array<std::uint8_t, 4> b4;
  for (int i = 0; i < 8; ++i) b8[i] = static_cast<std::uint8_t>(v >> (56 - 8 * i));
  for (int i = 0; i < 4; ++i) b4[i] = static_cast<std::uint8_t>(lo >> (24 - 8 * i));
  auto where = [&] { return "big-endian conversion of " + std::to_string(v); };
  m.sample(where);
  if (endian::uint64_to_be(v) != b8) m.fail("endian:to64", "uint64_to_be", where());
  if (endian::uint32_to_be(lo) != b4) m.fail("endian:to32", "uint32_to_be", where());
  if (endian::be_to_uint64(b8) != v || endian::be_to_uint64(b8[0], b8[1], b8[2], b8[3], b8[4], b8[5], b8[6], b8[7]) != v) m.fail("endian:from64", "be_to_uint64", where());
  if (endian::be_to_uint32(b4) != lo || endian::be_to_uint32(b4[0], b4[1], b4[2], b4[3]) != lo) m.fail("endian:from32", "be_to_uint32", where());
  // fixed arrays
  std::ostringstream os;
  bitio::Writer w(os);
  std::array<std::uint8_t, 4> g{};
  const auto wbits = bitio::write_array_uint8_4(&w, b4);
  std::istringstream is(os.str());
  bitio::Reader r(is);
  const auto rbits = bitio::read_array_uint8_4(&r, &g);
  if (wbits != 32 || rbits != 32 || g != b4 || os.str() != std::string(b4.begin(), b4.end())) m.fail("array", "four bytes", where());
}

static void run_p16(mc::MC& m) {
  m.phase("strings read under every limit");
  const std::string alpha("\x00\x01\x02\x03z\xff", 6);
  const std::size_t depth = m.thorough ? 7 : 5;
  for (std::size_t n = 0; n <= depth; ++n)
    mc::product(std::vector<std::size_t>(n, alpha.size()), [&](auto& d) {
      std::string s;
      for (auto i : d) s += alpha[i];
      for (int pascal = 0; pascal < 2; ++pascal)
        for (std::uint64_t limit = 0; limit <= 8 * (n + 2); ++limit) {
          string_case(m, s, limit, 0, pascal);
          if (limit % 8 == 0 || limit % 8 == 3)
            for (unsigned align : {1, 4, 7}) string_case(m, s, limit, align, pascal);
        }
    });
  m.phase("long length-prefixed strings under limits near their length");
  for (std::size_t n = 0; n <= 255; ++n)
    for (int more : {-1, 0, 1, 3}) {
      if (static_cast<int>(n) + more < 0) continue;
      std::string s(1, static_cast<char>(n));
      for (std::size_t i = 0; i < n + static_cast<std::size_t>(more); ++i) s += static_cast<char>('a' + i % 26);
      for (int dl : {-9, -8, -1, 0, 1, 8, 16, 2048})
        if (8 * static_cast<int>(n) + 8 + dl >= 0)
          for (unsigned align : {0, 3}) string_case(m, s, static_cast<std::uint64_t>(8 * static_cast<int>(n) + 8 + dl), align, true);
    }
  m.phase("strings written");
  for (unsigned align = 0; align < 8; ++align) {
    for (std::size_t n = 0; n <= 300; ++n)
      for (int kind = 0; kind < 3; ++kind) {
        std::string s;
        for (std::size_t i = 0; i < n; ++i) s += static_cast<char>(kind == 0 ? 'A' + i % 50 : kind == 1 ? 255 - i % 200 : 1 + (i * i) % 255);
        for (int pascal = 0; pascal < 2; ++pascal) written_string(m, s, align, pascal);
      }
    for (std::size_t n = 1; n <= 3; ++n)
      mc::product(std::vector<std::size_t>(n, alpha.size()), [&](auto& d) {
        std::string s;
        for (auto i : d) s += alpha[i];
        written_string(m, s, align, true);
        if (s.find('\0') == std::string::npos) written_string(m, s, align, false);
      });
  }
  m.phase("runs of numbers");
  for (unsigned align = 0; align < 8; ++align)
    for (std::size_t n = 0; n <= 5; ++n)
      for (std::size_t want = 0; want <= 6; ++want)
        for (std::uint64_t v : {0ULL, 0x0123456789abcdefULL, ~0ULL, 0x8000000000000080ULL}) {
          vector_case<std::uint8_t>(m, n, want, align, v);
          vector_case<std::uint16_t>(m, n, want, align, v);
          vector_case<std::uint32_t>(m, n, want, align, v);
          vector_case<std::uint64_t>(m, n, want, align, v);
        }
  for (std::size_t n : {255, 256, 257, 65536}) vector_case<std::uint8_t>(m, n, n, 0, 0x123457);
  m.phase("variable-length numbers written in every length");
  for (unsigned align : {0, 1, 5})
    for (unsigned size = 1; size <= 8; ++size) {
      std::set<std::uint64_t> vs;
      for (unsigned i = 0; i <= 56; ++i)
        for (int d : {-2, -1, 0, 1, 2}) vs.insert((1ULL << i) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d)));
      for (std::uint64_t p : {0x0123456789abcdULL, 0x55555555555555ULL, 0xaaaaaaaaaaaaaaULL, 0xffffffffffffffULL}) 
        for (unsigned i = 0; i <= 56; ++i) vs.insert(p >> i);
      for (auto v : vs) {
        if (v >> (7 * size) != 0) continue;
        if (v <= 0xff) varint_write<std::uint8_t>(m, v, size, align);
        if (v <= 0xffff) varint_write<std::uint16_t>(m, v, size, align);
        if (v <= 0xffffffff) varint_write<std::uint32_t>(m, v, size, align);
        varint_write<std::uint64_t>(m, v, size, align);
      }
    }
  for (std::uint64_t v = 0; v < 16384; ++v) varint_write<std::uint16_t>(m, v, 2, 0);
  m.phase("variable-length numbers read");
  const std::string va("\x00\x01\x7f\x80\x81\xc0\xff", 7);
  for (std::size_t n = 0; n <= (m.thorough ? 8 : 6); ++n)
    mc::product(std::vector<std::size_t>(n, va.size()), [&](auto& d) {
      std::string s;
      for (auto i : d) s += va[i];
      varint_read<std::uint8_t>(m, s);
      varint_read<std::uint16_t>(m, s);
      varint_read<std::uint32_t>(m, s);
      varint_read<std::uint64_t>(m, s);
    });
  for (int a = 0; a < 256; ++a)
    for (int b = 0; b < 256; ++b) varint_read<std::uint32_t>(m, {static_cast<char>(a), static_cast<char>(b)});
  m.phase("big-endian conversions");
  static const std::uint8_t eb[] = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff};
  mc::product(std::vector<std::size_t>(m.thorough ? 8 : 6, 6), [&](auto& d) {
    std::uint64_t v = 0;
    for (auto i : d) v = (v << 8) | eb[i];
    endian_case(m, v << (d.size() == 6 ? 16 : 0) | (d.size() == 6 ? v >> 40 : 0));
  });
  for (int i = 0; i < 8; ++i)
    for (std::uint64_t b = 0; b < 256; ++b) endian_case(m, b << (8 * i)), endian_case(m, 0x0102030405060708ULL ^ (b << (8 * i)));
}

int main(int argc, char** argv) {
  mc::MC m(argc, argv);
  if (m.prop == "P15") run_p15(m);
  else if (m.prop == "P16") run_p16(m);
  else return 3;
  return m.finish();
}
