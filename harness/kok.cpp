// Driver of C19: kok SCRIPT TRACE SCRATCH FIRST; a line of SCRIPT: id, type, two values
#include "kok.h"
namespace kk { std::FILE* out; std::string scratch; Fn table(int type); int fixedCount(); void fixed(int n, int id); }
using namespace kk;
static Val val(std::istream& in) {
  Val v; std::string l; std::size_t n; int a;
  in >> a >> l >> n; v.alloc = a;
  if (l != "-") for (std::size_t i = 0; i + 1 < l.size(); i += 2) v.label += char(std::stoi(l.substr(i, 2), nullptr, 16));
  v.ext.resize(n); for (auto& x : v.ext) in >> x;
  in >> n; v.str.resize(n); for (auto& x : v.str) in >> x;
  in >> n; v.ops.resize(n); for (auto& x : v.ops) in >> x;
  return v;
}
int main(int argc, char** argv) {
  if (argc < 5) return 97;
  std::ifstream in(argv[1]); out = std::fopen(argv[2], "a"); scratch = argv[3]; int first = std::atoi(argv[4]);
  if (!in || !out) return 97;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line); Case c; int type;
    s >> c.id >> type;
    if (c.id < first) continue;
    std::printf("BEGIN %d\n", c.id); std::fflush(stdout);
    watch(10);
    long const before = living + Kokkos::Standin::allocations();
    try {
      if (type < 0) fixed(-1 - type, c.id);
      else { c.v = val(s); c.p = val(s); table(type)(c); }
    } catch (std::exception const& x) { std::string w = x.what(); for (auto& ch : w) if (ch == '"' || ch == '\\' || ch < ' ') ch = ' '; event(c.id, "threw", ",\"what\":" + q(w.substr(0, 200))); }
    catch (...) { event(c.id, "threw", ""); }
    event(c.id, "left", ",\"n\":" + std::to_string(living + Kokkos::Standin::allocations() - before));
    std::fflush(out);
  }
  std::puts("DONE");
}
