// Memory the code under test may read but not write, with an unmapped page right behind it.
#pragma once
#include <sys/mman.h>
#include <cstring>
#include <stdexcept>
#include <vector>
namespace hx {
struct Guarded {
  char * base = nullptr;
  size_t len = 0, used = 0, off = 0;
  bool   front;
  // front: data starts at the page begin (an unmapped page before it); otherwise ends at the page end
  Guarded(const void *p, size_t n, bool front_ = false) : used(n), front(front_) {
    len  = (n + 4095) / 4096 * 4096 + 4096;
    base = (char *)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) throw std::runtime_error("mmap");
    mprotect(base, 4096, PROT_NONE);
    size_t body = len - 4096;
    mprotect(base + 4096 + body, 4096 - 0, PROT_NONE);
    off = front ? 4096 : 4096 + body - n;
    if (n) memcpy(base + off, p, n);
    readonly();
  }
  Guarded(const Guarded &) = delete;
  ~Guarded() { munmap(base, len + 4096); }
  char *data() { return base + off; }
  void  readonly() { mprotect(base + 4096, len - 4096, PROT_READ); }
  void  writable() { mprotect(base + 4096, len - 4096, PROT_READ | PROT_WRITE); }
  void  gone() { mprotect(base, len, PROT_NONE); }
};
}  // namespace hx
