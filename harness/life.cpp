// Steps scripts through the real library and records the life of every object: an event
// per construction, copy, assignment, destruction and serialize call, between the begin
// and the end of each operation, with a ledger of all allocations made meanwhile.
// usage: life SCRIPT TRACE SCRATCHDIR [firstCase]
#include "lifeops.h"
#include "watch.h"
#include "guard.h"
#include <sys/resource.h>
#include <malloc.h>
#include <map>
#include <signal.h>
#include <fstream>

// ---------------------------------------------------------------- allocation ledger
extern "C" {
void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t); void* __libc_memalign(std::size_t, std::size_t);
}
namespace ledger {
struct Blk { void* p; int op; char live; };
static constexpr std::size_t cap = 1u << 18;
static Blk tab[cap];
static std::size_t used[cap]; static std::size_t nused = 0;
static bool on = false;       // record new allocations
static bool active = false;   // a case is running: frees are checked
static int op = 0; static long bad = 0;
struct Range { char* b; char* e; };
static Range callers[64]; static int ncallers = 0;
static std::size_t slot(void* p) { std::size_t h = ((std::size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; while (tab[h].p && tab[h].p != p) h = (h + 1) % cap; return h; }
static void add(void* p) { if (!p) return; auto h = slot(p); if (!tab[h].p) { if (nused > cap / 2) _exit(97); used[nused++] = h; } tab[h] = {p, op, 1}; }
static bool callerOwns(void* p) { for (int i = 0; i < ncallers; i++) if ((char*)p >= callers[i].b && (char*)p < callers[i].e) return true; return false; }
// true: the block must not be handed to libc
static bool release(void* p) {
  if (!active) return false;
  auto h = slot(p);
  if (tab[h].p) {
    if (!tab[h].live) { bad++; return true; }
    tab[h].live = 0; memset(p, 0xDD, malloc_usable_size(p)); return true;   // kept until the case ends
  }
  if (callerOwns(p)) { bad++; return true; }
  return false;
}
static long live(int o) { long n = 0; for (std::size_t i = 0; i < nused; i++) { auto& b = tab[used[i]]; if (b.live && (o < 0 || b.op == o)) n++; } return n; }
static void reset() { active = on = false; for (std::size_t i = 0; i < nused; i++) { auto& b = tab[used[i]]; if (!b.live) __libc_free(b.p); b = {nullptr, 0, 0}; } nused = 0; bad = 0; ncallers = 0; op = 0; }
}
extern "C" {
void* malloc(std::size_t n) { void* p = __libc_malloc(n); if (ledger::on) ledger::add(p); return p; }
void* calloc(std::size_t a, std::size_t b) { void* p = __libc_calloc(a, b); if (ledger::on) ledger::add(p); return p; }
void free(void* p) { if (p && !ledger::release(p)) __libc_free(p); }
void* realloc(void* p, std::size_t n) {
  if (p && ledger::active) {
    auto h = ledger::slot(p);
    if (ledger::tab[h].p) { void* q = malloc(n); auto m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); return q; }
    if (ledger::callerOwns(p)) { ledger::bad++; return p; }
  }
  void* q = __libc_realloc(p, n); if (!p && ledger::on) ledger::add(q); return q;
}
void* memalign(std::size_t a, std::size_t n) { void* p = __libc_memalign(a, n); if (ledger::on) ledger::add(p); return p; }
void* aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
int posix_memalign(void** r, std::size_t a, std::size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
}

// ---------------------------------------------------------------- events
static FILE* tr; static bool logging = false; static int curCase = 0; static int ids = 0;
namespace vt {
LifeCtl lctl;
std::vector<std::pair<int, TypeOps*>>& typeTable() { static std::vector<std::pair<int, TypeOps*>> t; return t; }
int lifeId() { return ++ids; }
void lifeEvent(char const* e, int a, int b, char const* k, char const* h) {
  if (!logging) return;
  bool o = ledger::on; ledger::on = false;
  static char buf[400];
  int n = snprintf(buf, sizeof buf, "{\"c\":%d,\"e\":\"%s\",\"a\":%d,\"b\":%d,\"k\":\"%s\",\"h\":\"%s\"}\n", curCase, e, a, b, k, h);
  fwrite(buf, 1, (std::size_t)n, tr);
  ledger::on = o;
}
}
using namespace vt;

struct Obj { void* p = nullptr; TypeOps* t = nullptr; std::unique_ptr<Guarded> in; };
static std::map<int, TypeOps*> types;
static std::string scratch;
static std::map<int, Obj> objs; static std::map<int, Guarded> imgs; static std::map<int, std::unique_ptr<AnyStream>> streams;
static std::string fname(int f) { return scratch + "/f" + std::to_string(f); }
static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(std::string const& p, std::string const& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), (std::streamsize)b.size()); }
static void setImg(int m, std::string const& s) { Guarded g(s.size()); if (s.size()) memcpy(g.data, s.data(), s.size()); g.readonly(); imgs.erase(m); imgs.emplace(m, std::move(g)); }
static void caller(Guarded& g) { if (ledger::ncallers < 64) ledger::callers[ledger::ncallers++] = {g.map, g.map + g.maplen}; }
template <typename F> static char const* lib(F&& f) {
  char const* out = "ok";
  ledger::op++;
  ledger::on = true;
  try { f(); }
  catch (checkpoint::dispatch::serialization_error const&) { ledger::on = false; out = "serr"; }
  catch (LifeError const&) { ledger::on = false; out = "user"; }
  catch (std::runtime_error const&) { ledger::on = false; out = "rt"; }
  catch (std::exception const&) { ledger::on = false; out = "std"; }
  catch (...) { ledger::on = false; out = "unk"; }
  ledger::on = false;
  return out;
}
static void drop(Obj& o) { if (!o.p) return; if (o.in) o.t->destruct(o.p); else o.t->destroy(o.p); o.p = nullptr; o.in.reset(); }

static void runCase(std::vector<std::string> const& lines) {
  ids = 0; ledger::active = true;
  int ai = 0, ap = -1, as = -1; (void)ai;
  for (auto const& line : lines) {
    std::istringstream is(line);
    std::string op; int a = 0, b = 0; is >> op >> a >> b;
    if (op == "arm") { ap = a; as = b; continue; }
    lctl = LifeCtl(); lctl.throwPass = ap; lctl.throwAt = as; ap = as = -1;
    lifeEvent("op", a, b, "", op.c_str());
    char const* out = "ok"; Node val; std::string rest; std::string bytes; int ty = 0;
    auto ref = [&](int s) -> Obj& { return objs.at(s); };
    if (op == "mk") { std::getline(is, rest); auto n = parse(rest); Obj o; o.t = types.at(b); out = lib([&] { o.p = o.t->make(n); }); val = o.t->proj(o.p); objs[a] = std::move(o); }
    else if (op == "rm") { out = lib([&] { drop(ref(a)); }); objs.erase(a); }
    else if (op == "gs") { Obj& o = ref(a); out = lib([&] { o.t->size(o.p); }); val = o.t->proj(o.p); }
    else if (op == "se" || op == "su") {
      Obj& o = ref(a); Guarded ub;
      out = lib([&] {
        auto r = o.t->ser(o.p, op == "se" ? checkpoint::BufferCallbackType{} : checkpoint::BufferCallbackType{[&](std::size_t n) -> char* { ub = Guarded(n); caller(ub); return ub.data; }});
        bool t = ledger::on; ledger::on = false; bytes.assign(r->getBuffer(), r->getSize()); ledger::on = t;
      });
      val = o.t->proj(o.p);
      if (std::string(out) == "ok") setImg(b, bytes);
    }
    else if (op == "sr") { Obj& o = ref(a); Obj n; n.t = o.t; out = lib([&] { auto r = o.t->ser(o.p, nullptr); n.p = o.t->deserRet(std::move(r)); }); if (n.p) { val = n.t->proj(n.p); objs[b] = std::move(n); } }
    else if (op == "wf") { Obj& o = ref(a); auto f = fname(b); out = lib([&] { o.t->toFile(o.p, f); }); val = o.t->proj(o.p); }
    else if (op == "ns") { streams[a] = std::make_unique<AnyStream>(b, scratch + "/s" + std::to_string(a)); }
    else if (op == "ws") { Obj& o = ref(a); auto& s = *streams.at(b); out = lib([&] { o.t->toStream(o.p, s); }); val = o.t->proj(o.p); }
    else if (op == "dm" || op == "du" || op == "di") {
      auto& g = imgs.at(a); caller(g); is >> ty;
      if (op == "di") { Obj& o = ref(b); out = lib([&] { o.t->deserIn(g.data, o.p); }); val = o.t->proj(o.p); }
      else {
        Obj n; n.t = types.at(ty); std::unique_ptr<Guarded> ob; char* place = nullptr;
        if (op == "du") { ob = std::make_unique<Guarded>((n.t->sizeOf() + 15) / 16 * 16); place = ob->data; caller(*ob); }
        out = lib([&] { n.p = place ? n.t->deserObj(g.data, place) : n.t->deser(g.data); });
        if (n.p) { if (place) n.in = std::move(ob); val = n.t->proj(n.p); objs[b] = std::move(n); }
      }
    }
    else if (op == "rf" || op == "ri" || op == "rs" || op == "rt") {
      is >> ty; bool file = op[1] == 'f' || op[1] == 'i'; bool in = op[1] == 'i' || op[1] == 't'; auto f = fname(a);
      AnyStream* s = file ? nullptr : streams.at(a).get();
      if (in) { Obj& o = ref(b); out = lib([&] { if (file) o.t->fromFileIn(f, o.p); else o.t->fromStreamIn(*s, o.p); }); val = o.t->proj(o.p); }
      else { Obj n; n.t = types.at(ty); out = lib([&] { n.p = file ? n.t->fromFile(f) : n.t->fromStream(*s); }); if (n.p) { val = n.t->proj(n.p); objs[b] = std::move(n); } }
    }
    else if (op == "cf") { auto s = slurp(fname(a)); s.resize(b < 0 ? s.size() - std::min<std::size_t>(s.size(), (std::size_t)-b) : std::min<std::size_t>(s.size(), (std::size_t)b)); spit(fname(a), s); }
    else if (op == "cs") { auto s = streams.at(a)->content(); s.resize(b < 0 ? s.size() - std::min<std::size_t>(s.size(), (std::size_t)-b) : std::min<std::size_t>(s.size(), (std::size_t)b)); streams[a] = std::make_unique<AnyStream>(0); streams.at(a)->append(s); }
    else { fprintf(stderr, "harness: unknown op %s\n", op.c_str()); exit(97); }
    if (logging) {
      std::string j = "{\"c\":" + std::to_string(curCase) + ",\"e\":\"end\",\"a\":" + std::to_string(ledger::live(ledger::op)) + ",\"b\":" + std::to_string(ledger::bad) +
        ",\"k\":\"" + (lctl.threw ? "threw" : "") + "\",\"h\":\"" + out + "\",\"val\":" + json(val) + "}\n";
      fwrite(j.data(), 1, j.size(), tr); fflush(tr);
    }
  }
  lifeEvent("op", 0, 0, "", "fin");
  lctl = LifeCtl();
  for (auto& o : objs) drop(o.second);
  objs.clear(); imgs.clear(); streams.clear();
  for (int f = 1; f < 6; f++) { ::unlink(fname(f).c_str()); ::unlink((scratch + "/s" + std::to_string(f)).c_str()); }
  lifeEvent("fin", (int)ledger::live(-1), (int)ledger::bad, "", "");
  ledger::reset();
}

int main(int argc, char** argv) {
  if (argc < 4) return 97;
  { rlimit rl{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_AS, &rl); }   // a size read from garbage must not take the machine
  std::ifstream in(argv[1]);
  tr = fopen(argv[2], "a");
  static char fb[1 << 16]; setvbuf(tr, fb, _IOFBF, sizeof fb);
  scratch = argv[3];
  int first = argc > 4 ? atoi(argv[4]) : 0;
  for (auto& p : typeTable()) types[p.first] = p.second;
  std::string line; std::vector<std::string> lines; bool any = false;
  auto run = [&] {
    if (!any || curCase < first) { lines.clear(); return; }
    printf("BEGIN %d\n", curCase); fflush(stdout);
    watch(10);
    logging = false; runCase(lines);      // one-time initialisations
    logging = true; runCase(lines);
    logging = false; fflush(tr); watch(0); lines.clear();
  };
  while (std::getline(in, line)) {
    if (line.compare(0, 5, "CASE ") == 0) { run(); curCase = atoi(line.c_str() + 5); any = true; continue; }
    if (!line.empty()) lines.push_back(line);
  }
  run();
  fclose(tr); printf("DONE\n");
  return 0;
}
