// Wrappers (-Wl,--wrap) around the file-system calls the library makes. While armed they
// count the calls, keep a ledger, make chosen calls fail, or kill the process.
#include "iowrap.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <vector>
#include "val.h"

namespace vt { IoCtl ioctl_; }
using namespace vt;

static std::string fdDigest(int fd) {   // content of the file behind a descriptor
  return contentDigest("/proc/self/fd/" + std::to_string(fd));
}

#define REAL(name) __real_##name
static bool before(IoCall& c, char const* name) {
  c.name = name; c.index = ioctl_.count++;
  if (ioctl_.dieAt == 2 * c.index) _exit(77);
  for (auto& f : ioctl_.fail) if (f.first == c.index) { c.injected = true; c.err = f.second; }
  return c.injected;
}
static void after(IoCall& c) {
  ioctl_.calls.push_back(c);
  if (ioctl_.dieAt == 2 * c.index + 1) _exit(77);
  if (c.injected) errno = c.err;
}
#define ON (ioctl_.armed)

extern "C" {
int __real_open(char const*, int, ...); int __real_open64(char const*, int, ...); int __real_creat(char const*, mode_t); int __real_openat(int, char const*, int, ...);
int __real_close(int); int __real_fallocate(int, int, off_t, off_t); int __real_fallocate64(int, int, off64_t, off64_t); int __real_posix_fallocate(int, off_t, off_t); int __real_posix_fallocate64(int, off64_t, off64_t);
int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off64_t); int __real_fsync(int); int __real_fdatasync(int);
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __real_mmap64(void*, size_t, int, int, int, off64_t);
int __real_msync(void*, size_t, int); int __real_munmap(void*, size_t);
int __real_fstat(int, struct stat*); int __real_fstat64(int, struct stat64*); int __real_stat(char const*, struct stat*);
ssize_t __real_write(int, void const*, size_t); ssize_t __real_pwrite(int, void const*, size_t, off_t); ssize_t __real_read(int, void*, size_t);
int __real_rename(char const*, char const*); int __real_unlink(char const*);

#define OPENLIKE(name, real_call, ...)                                         \
  int m = 0; { va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, int); va_end(ap); } \
  if (!ON) return real_call;                                                   \
  IoCall c; if (before(c, "open")) { after(c); return -1; }                    \
  int r = real_call; c.err = errno; c.a = r; c.ok = r >= 0; c.flags = flags;   \
  if (r >= 0) ioctl_.own.insert(r);                                            \
  after(c); errno = c.err; return r;
int __wrap_open(char const* p, int flags, ...) { OPENLIKE(open, __real_open(p, flags, m)) }
int __wrap_open64(char const* p, int flags, ...) { OPENLIKE(open64, __real_open64(p, flags, m)) }
int __wrap_openat(int d, char const* p, int flags, ...) { OPENLIKE(openat, __real_openat(d, p, flags, m)) }
int __wrap_creat(char const* p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

// a failing close still releases the descriptor, as on Linux
int __wrap_close(int fd) {
  if (!ON) return __real_close(fd);
  IoCall c; c.a = fd; bool inj = before(c, "close");
  c.d = fdDigest(fd);
  int r = __real_close(fd); c.ok = r == 0; if (!inj) c.err = errno;
  after(c); return inj ? -1 : r;
}
#define FDLIKE(nm, call)                                                       \
  if (!ON) return call;                                                        \
  IoCall c; c.a = fd; if (before(c, nm)) { after(c); return -1; }              \
  int r = call; c.err = errno; c.ok = r == 0; c.d = fdDigest(fd); after(c); errno = c.err; return r;
int __wrap_fallocate(int fd, int m, off_t o, off_t l) { FDLIKE("fallocate", __real_fallocate(fd, m, o, l)) }
int __wrap_fallocate64(int fd, int m, off64_t o, off64_t l) { FDLIKE("fallocate", __real_fallocate64(fd, m, o, l)) }
// posix_fallocate returns its error
int __wrap_posix_fallocate(int fd, off_t o, off_t l) {
  if (!ON) return __real_posix_fallocate(fd, o, l);
  IoCall c; c.a = fd; if (before(c, "fallocate")) { after(c); return c.err; }
  int r = __real_posix_fallocate(fd, o, l); c.ok = r == 0; c.d = fdDigest(fd); after(c); return r;
}
int __wrap_posix_fallocate64(int fd, off64_t o, off64_t l) { return __wrap_posix_fallocate(fd, o, l); }
int __wrap_ftruncate(int fd, off_t l) { FDLIKE("ftruncate", __real_ftruncate(fd, l)) }
int __wrap_ftruncate64(int fd, off64_t l) { FDLIKE("ftruncate", __real_ftruncate64(fd, l)) }
int __wrap_fsync(int fd) { FDLIKE("fsync", __real_fsync(fd)) }
int __wrap_fdatasync(int fd) { FDLIKE("fsync", __real_fdatasync(fd)) }
int __wrap_fstat(int fd, struct stat* s) { FDLIKE("fstat", __real_fstat(fd, s)) }
int __wrap_fstat64(int fd, struct stat64* s) { FDLIKE("fstat", __real_fstat64(fd, s)) }
int __wrap_stat(char const* p, struct stat* s) {
  if (!ON) return __real_stat(p, s);
  IoCall c; if (before(c, "fstat")) { after(c); return -1; }
  int r = __real_stat(p, s); c.err = errno; c.ok = r == 0; after(c); errno = c.err; return r;
}
static void* mapLike(void* a, size_t n, int prot, int fl, int fd, off_t o) {
  // anonymous mappings are the allocator's business
  if (!ON || fd < 0) return __real_mmap(a, n, prot, fl, fd, o);
  IoCall c; c.a = fd; c.len = (long long)n; if (before(c, "mmap")) { after(c); return MAP_FAILED; }
  void* r = __real_mmap(a, n, prot, fl, fd, o); c.err = errno; c.ok = r != MAP_FAILED; c.flags = prot;
  if (c.ok) { c.b = ++ioctl_.maps; ioctl_.live.push_back({r, n, c.b, (prot & PROT_WRITE) != 0}); }
  after(c); errno = c.err; return r;
}
void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) { return mapLike(a, n, prot, fl, fd, o); }
void* __wrap_mmap64(void* a, size_t n, int prot, int fl, int fd, off64_t o) { return mapLike(a, n, prot, fl, fd, o); }
static IoMap* findMap(void* p) { for (auto& m : ioctl_.live) if (m.p == p) return &m; return nullptr; }
int __wrap_msync(void* p, size_t n, int fl) {
  if (!ON) return __real_msync(p, n, fl);
  IoCall c; auto m = findMap(p); c.b = m ? m->id : -1; c.len = (long long)n; c.flags = fl & MS_SYNC ? 1 : 0;
  if (before(c, "msync")) { after(c); return -1; }
  int r = __real_msync(p, n, fl); c.err = errno; c.ok = r == 0;
  if (m) c.d = contentDigest(ioctl_.path);
  after(c); errno = c.err; return r;
}
int __wrap_munmap(void* p, size_t n) {
  if (!ON) return __real_munmap(p, n);
  auto m = findMap(p);
  // a failing munmap is reported, but releases the mapping so that nothing stays behind
  IoCall c; c.b = m ? m->id : -1; c.len = (long long)n; bool inj = before(c, "munmap");
  int r = __real_munmap(p, n); c.ok = r == 0; if (!inj) c.err = errno;
  if (m) { for (size_t i = 0; i < ioctl_.live.size(); i++) if (ioctl_.live[i].p == p) { ioctl_.live.erase(ioctl_.live.begin() + (long)i); break; } }
  after(c); return inj ? -1 : r;
}
ssize_t __wrap_write(int fd, void const* p, size_t n) {
  if (!ON || !ioctl_.own.count(fd)) return __real_write(fd, p, n);
  IoCall c; c.a = fd; c.len = (long long)n; if (before(c, "write")) { after(c); return -1; }
  ssize_t r = __real_write(fd, p, n); c.err = errno; c.ok = r >= 0; after(c); errno = c.err; return r;
}
ssize_t __wrap_pwrite(int fd, void const* p, size_t n, off_t o) {
  if (!ON || !ioctl_.own.count(fd)) return __real_pwrite(fd, p, n, o);
  IoCall c; c.a = fd; c.len = (long long)n; if (before(c, "write")) { after(c); return -1; }
  ssize_t r = __real_pwrite(fd, p, n, o); c.err = errno; c.ok = r >= 0; after(c); errno = c.err; return r;
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
  if (!ON || !ioctl_.own.count(fd)) return __real_read(fd, p, n);
  IoCall c; c.a = fd; c.len = (long long)n; if (before(c, "read")) { after(c); return -1; }
  ssize_t r = __real_read(fd, p, n); c.err = errno; c.ok = r >= 0; after(c); errno = c.err; return r;
}
int __wrap_rename(char const* a, char const* b) {
  if (!ON) return __real_rename(a, b);
  IoCall c; if (before(c, "rename")) { after(c); return -1; }
  int r = __real_rename(a, b); c.err = errno; c.ok = r == 0; after(c); errno = c.err; return r;
}
int __wrap_unlink(char const* a) { return __real_unlink(a); }
}

std::string contentDigest(std::string const& path) {
  bool const was = ioctl_.armed; ioctl_.armed = false;
  std::string s; FILE* f = fopen(path.c_str(), "rb");
  if (f) { char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, k); fclose(f); }
  ioctl_.armed = was;
  return fnv(s.data(), s.size());
}
void armIo(int at) { ioctl_.reset(); ioctl_.dieAt = at; ioctl_.armed = true; }
