// Memory with inaccessible pages on both sides; the data ends exactly at the guard page
// (or starts exactly at it), so any access outside the buffer is a fault.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <utility>
#include <new>

struct Guarded {
  char* map = nullptr; std::size_t maplen = 0; char* data = nullptr; std::size_t len = 0;
  Guarded() = default;
  explicit Guarded(std::size_t n, bool at_start = false) : len(n) {
    std::size_t pg = 4096, body = ((n + pg - 1) / pg) * pg;
    if (!body) body = pg;
    maplen = body + 2 * pg;
    void* m = mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { maplen = 0; throw std::bad_alloc(); }
    map = static_cast<char*>(m);
    mprotect(map + pg, body, PROT_READ | PROT_WRITE);
    data = at_start ? map + pg : map + pg + body - n;
    if (n < (1u << 26)) memset(map + pg, 0xA5, body);
  }
  Guarded(Guarded&& o) { swap(o); }
  Guarded& operator=(Guarded&& o) { swap(o); return *this; }
  ~Guarded() { if (map) munmap(map, maplen); }
  void swap(Guarded& o) { std::swap(map, o.map); std::swap(maplen, o.maplen); std::swap(data, o.data); std::swap(len, o.len); }
  void readonly() { mprotect(map + 4096, maplen - 8192, PROT_READ); }
  // the slack bytes inside the accessible pages are untouched
  bool intact() const {
    for (char* p = map + 4096; p < data; ++p) if ((unsigned char)*p != 0xA5) return false;
    for (char* p = data + len; p < map + maplen - 4096; ++p) if ((unsigned char)*p != 0xA5) return false;
    return true;
  }
};
