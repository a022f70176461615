// The file the faststart writer keeps its data in, made to live in memory and to fail on demand.
#pragma once

#include <dlfcn.h>

#include "mux.hpp"

using namespace mx;

// While on, the file the faststart writer creates lives in memory (its name is really created, and empty), and its
// operations can be made to fail.
namespace imf {
enum Mode { NONE, ONCE, STICKY, SHORT, END };
bool on = false;
u64 made = 0, opened = 0;  // hooks reached
bool fail_create = false, fail_open = false;
std::function<void(const char*)> after_create;  // someone else's doing, right after the file was created
Mode mode = NONE;
u64 ops = 0, fail_at = ~0ULL, faults = 0;
char last_kind = 0;
string kinds;

struct F {
  ut::SparseBuf b;
  int fd = -1;
  FILE* fp = nullptr;
  bool closed = false;
};
vector<std::unique_ptr<F>> files, kept;

bool hit(char kind) {
  const u64 k = ops++;
  kinds += kind;
  const bool f = mode != NONE && (k == fail_at || (mode == STICKY && k > fail_at));
  if (f) {
    ++faults;
    last_kind = kind;
  }
  return f;
}
ssize_t rd(void* c, char* buf, size_t n) {
  auto* f = static_cast<F*>(c);
  if (hit('r')) {
    if (mode == END) return 0;
    if (mode == SHORT)
      n = (n + 1) / 2;
    else {
      errno = EIO;
      return -1;
    }
  }
  return static_cast<ssize_t>(f->b.get(buf, n));
}
ssize_t wr(void* c, const char* buf, size_t n) {
  auto* f = static_cast<F*>(c);
  if (hit('w')) {
    if (mode == SHORT || mode == END)
      n /= 2;
    else
      n = 0;
    f->b.put(buf, n);
    errno = ENOSPC;
    return static_cast<ssize_t>(n);
  }
  f->b.put(buf, n);
  return static_cast<ssize_t>(n);
}
int sk(void* c, off64_t* off, int whence) {
  auto* f = static_cast<F*>(c);
  if (hit('s') && (mode == ONCE || mode == STICKY)) {
    errno = EIO;
    return -1;
  }
  const i64 b = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<i64>(f->b.pos) : static_cast<i64>(f->b.size)) + *off;
  if (b < 0) {
    errno = EINVAL;
    return -1;
  }
  f->b.pos = static_cast<u64>(b);
  *off = b;
  return 0;
}
int cl(void* c) {
  auto* f = static_cast<F*>(c);
  f->closed = true;
  ::close(f->fd);
  if (on && hit('c') && (mode == ONCE || mode == STICKY)) {
    errno = EIO;
    return -1;
  }
  return 0;
}
void begin(Mode m = NONE, u64 at = ~0ULL) {
  on = true;
  mode = m;
  fail_at = at;
  ops = faults = made = opened = 0;
  kinds.clear();
  fail_create = fail_open = false;
}
void end() {
  mode = NONE;
  on = false;
  // a writer that still lives may close its file later
  for (auto& f : files)
    if (!f->closed && f->fp) kept.push_back(std::move(f));
  files.clear();
}
}  // namespace imf

extern "C" int mkstemp(char* t) noexcept(false) {
  static auto real = reinterpret_cast<int (*)(char*)>(dlsym(RTLD_NEXT, "mkstemp"));
  if (imf::on) {
    ++imf::made;
    if (imf::fail_create) {
      errno = EACCES;
      return -1;
    }
  }
  const int fd = real(t);
  if (fd >= 0 && imf::after_create) imf::after_create(t);
  return fd;
}
extern "C" FILE* fdopen(int fd, const char* mode) noexcept {
  static auto real = reinterpret_cast<FILE* (*)(int, const char*)>(dlsym(RTLD_NEXT, "fdopen"));
  if (!imf::on) return real(fd, mode);
  ++imf::opened;
  if (imf::fail_open) {
    errno = ENOMEM;
    return nullptr;
  }
  imf::files.emplace_back(new imf::F);
  auto* f = imf::files.back().get();
  f->fd = fd;
  cookie_io_functions_t io = {imf::rd, imf::wr, imf::sk, imf::cl};
  f->fp = fopencookie(f, "w+", io);
  return f->fp;
}
