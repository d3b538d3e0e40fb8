// Images larger than 4 GiB: sizes at every place they are visible, and markers through a
// guarded buffer. The data lives in memory that is only reserved, never committed.
#include "ops.h"
#include "guard.h"
using namespace vt;

struct HugeArr {
  unsigned char* p = nullptr; std::size_t n = 0; std::uint64_t tail = 0;
  template <typename S> void serialize(S& s) { s | n; checkpoint::dispatch::serializeArray(s, p, n); s | tail; }
};
struct HugeWide {     // many wide elements
  double* p = nullptr; std::size_t n = 0; std::uint64_t tail = 0;
  template <typename S> void serialize(S& s) { s | n; checkpoint::dispatch::serializeArray(s, p, n); s | tail; }
};
struct HugeSum {      // many medium parts
  unsigned char* p = nullptr; std::size_t n = 0; std::uint64_t tail = 0;
  template <typename S> void serialize(S& s) {
    s | n;
    std::size_t done = 0;
    while (done < n) { std::size_t k = std::min<std::size_t>(n - done, 1u << 28); checkpoint::dispatch::serializeArray(s, p + done, k); done += k; }
    s | tail;
  }
};
struct CountStream {
  std::uint64_t n = 0; 
  CountStream& write(char const*, std::streamsize k) { n += (std::uint64_t)k; return *this; }
  std::streamoff tellp() const { return (std::streamoff)n; }
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
};
static Node S(char const* name, std::uint64_t v) { Node r; r.t = name; r.v = std::to_string(v); return r; }
static std::vector<std::size_t> marks(std::size_t n) {
  std::vector<std::size_t> r{0, 1, 4095, n / 2, n - 1};
  for (std::size_t m : {std::size_t(1) << 31, (std::size_t(1) << 32) - 1, std::size_t(1) << 32, (std::size_t(1) << 32) + 4097}) if (m < n) r.push_back(m);
  return r;
}
template <typename H> void hugeRun(std::size_t bytes, bool through, Node& out) {
  using E = std::remove_pointer_t<decltype(H::p)>;
  Guarded src(bytes); H h; h.p = reinterpret_cast<E*>(src.data); h.n = bytes / sizeof(E); h.tail = 0x1122334455667788ull;
  int i = 1;
  for (auto m : marks(bytes)) src.data[m] = (char)(i++);
  std::uint64_t size = checkpoint::getSize<H>(h);
  out.k.push_back(S("getSize", size));
  if (size < bytes + 16) out.n = 0;
  CountStream cs; checkpoint::serializeToStream<H>(h, cs);
  out.k.push_back(S("stream", cs.n));
  if (!through) return;
  Guarded ub; std::uint64_t asked = 0, calls = 0;
  auto r = checkpoint::serialize<H>(h, [&](std::size_t n) -> char* { asked = n; ++calls; ub = Guarded(n); return ub.data; });
  out.k.push_back(S("asked", asked)); out.k.push_back(S("returned", r->getSize()));
  if (calls != 1 || r->getBuffer() != ub.data || !ub.data) out.n = 0;
  Guarded dst(bytes); H g; g.p = reinterpret_cast<E*>(dst.data); 
  checkpoint::deserializeInPlace<H>(ub.data, &g);
  i = 1;
  for (auto m : marks(bytes)) if (dst.data[m] != src.data[m]) out.n = 0;
  if (g.n != h.n || g.tail != h.tail) out.n = 0;
}
void hugeCase(int which, int big, Node& out) {
  std::size_t n = big ? (std::size_t(1) << 32) + 16384 : (std::size_t(1) << 31) + 4096;
  out.t = "sizes"; out.n = 1;
  if (which == 1) hugeRun<HugeArr>(n, false, out);
  if (which == 2) hugeRun<HugeWide>(n, false, out);
  if (which == 3) hugeRun<HugeSum>(n, false, out);
  if (which == 4) hugeRun<HugeWide>(n, true, out);
  if (which == 5) hugeRun<HugeArr>(n, true, out);
}
