// Runs operations side by side: threads advanced one step at a time by a given schedule (a
// step ends at the next scheduling point), operations nested in serialize functions, failing
// operations in between, and threads running freely.
// usage: iso SCRIPT TRACE SCRATCHDIR [firstCase]
//   JOB id kind type value other throwPass throwAt      (head of the script)
//   CASE n / SOLO job
//   CASE n / NEST depth job gate nested ... / RUN allocs warm | jobs of thread 1 | ... | schedule
//   CASE n / FREE times | jobs of thread 1 | ...
#include "iso.h"
#include <atomic>
#include <fstream>
#include <map>
#include <mutex>
#include <semaphore.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include "watch.h"
#include <dirent.h>

using namespace vt;
using namespace iso;
namespace vt { std::vector<std::pair<int, TypeOps*>>& typeTable() { static std::vector<std::pair<int, TypeOps*>> t; return t; } }
namespace iso { std::vector<std::pair<int, IsoOps*>>& table() { static std::vector<std::pair<int, IsoOps*>> t; return t; } }

struct Job { int id = 0, type = 0; std::string kind; Node val, other; int throwPass = -1, throwAt = -1; };
static std::map<int, Job> jobs; static std::map<int, IsoOps*> types;
static std::map<std::tuple<int, int, int>, int> nest;       // depth, job, gate -> nested job
static std::string scratch; static int curCase = 0;
static std::mutex mu; static std::vector<std::string> events; static std::atomic<int> instances{0};
static bool allocGates = false; static std::atomic<bool> baton{false};

struct Inst { Job* j; int no, gates = 0, pass[5] = {0, 0, 0, 0, 0}, depth = 0; Inst* up = nullptr; std::vector<std::string>* own = nullptr; };
struct Thr { std::thread th; sem_t go, back; bool done = false, running = false; };
static std::vector<std::unique_ptr<Thr>> thr;
static thread_local Inst* cur = nullptr; static thread_local Thr* me = nullptr; static thread_local int busy = 0;

static void put(Inst* i, char const* e, std::string const& s) {
  std::string l = "{\"c\":" + std::to_string(curCase) + ",\"e\":\"" + e + "\",\"i\":" + std::to_string(i->no) + ",\"j\":" + std::to_string(i->j->id) + ",\"s\":\"" + s + "\"}\n";
  if (i->own) { i->own->push_back(l); return; }
  std::lock_guard<std::mutex> g(mu); events.push_back(l);
}
static void yieldNow() {
  if (!baton || !me) return;
  sem_post(&me->back);
  while (sem_wait(&me->go)) {}
}
static std::string esc(std::string const& s) { std::string r; for (char c : s) r += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '_' : c; return r.substr(0, 120); }
static void runJob(Job& j, int depth);
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
void iso::gate(char const* tag, int pass, long long x, long long used, bool plain) {
  if (!cur) return;
  Inst* i = cur; Job* nested = nullptr; bool boom;
  {
    Busy b;
    put(i, "v", std::string(tag) + std::to_string(pass) + " " + std::to_string(x) + " " + std::to_string(used) + (plain ? " p" : ""));
    int k = i->gates++; boom = pass == i->j->throwPass && i->pass[pass]++ == i->j->throwAt;
    auto it = nest.find({i->depth, i->j->id, k});
    if (it != nest.end()) nested = &jobs.at(it->second);
    yieldNow();
    if (nested) { int keep = busy; busy = 0; runJob(*nested, i->depth + 1); busy = keep; cur = i; }
  }
  if (boom) throw GateError();
}
// allocations as scheduling points
static void allocGate() { if (allocGates && cur && !busy) { Busy b; yieldNow(); } }
void* operator new(std::size_t n) { allocGate(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { allocGate(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { allocGate(); free(p); }
void operator delete[](void* p) noexcept { allocGate(); free(p); }
void operator delete(void* p, std::size_t) noexcept { allocGate(); free(p); }
void operator delete[](void* p, std::size_t) noexcept { allocGate(); free(p); }

static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(std::string const& p, std::string const& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), (std::streamsize)b.size()); }
static std::string imgName(int j) { return scratch + "/img" + std::to_string(j); }
static std::string digest(std::string const& b) { return std::to_string(b.size()) + "," + fnv(b.data(), b.size()); }
static bool reads(std::string const& k) { return k == "de" || k == "du" || k == "di" || k == "rf" || k == "ri" || k == "rs" || k == "rt" || k == "cut" || k == "cuf"; }

// one operation from beginning to end, on objects of its own
static void runJobIn(Job& j, int depth, std::vector<std::string>* own) {
  Inst in; in.j = &j; in.no = ++instances; in.depth = depth; in.up = cur; in.own = own ? own : (cur ? cur->own : nullptr);
  Inst* const up = cur; cur = nullptr;
  Busy* b = new Busy;
  IsoOps& io = *types.at(j.type); TypeOps& t = io.ops();
  std::string out = "ok", res; std::string const& k = j.kind;
  bool const over = k == "di" || k == "ri" || k == "rt";
  void* p = (!reads(k) || over) ? t.make(over ? j.other : j.val) : nullptr;
  std::string img; if (reads(k)) img = slurp(imgName(j.id));
  if (k == "cut" || k == "cuf") img.resize(img.size() / 2);
  std::string const f = scratch + "/f" + std::to_string(in.no);
  if (k == "rf" || k == "ri" || k == "cuf") spit(f, img);
  AnyStream st(0); if (k == "rs" || k == "rt" || k == "cut") st.append(img);
  std::vector<char> ub, place; if (k == "du") place.resize(t.sizeOf() + t.alignOf()); 
  checkpoint::SerializedReturnType ret{nullptr};
  put(&in, "b", k); cur = &in; delete b;
  void* n = nullptr; std::size_t sz = 0; std::string tv;
  char* at = place.empty() ? nullptr : place.data() + (t.alignOf() - (std::size_t)place.data() % t.alignOf()) % t.alignOf();
  try {
    if (k == "gs") sz = t.size(p);
    else if (k == "fp") sz = t.footprint(p, 0);
    else if (k == "se") ret = t.ser(p, nullptr);
    else if (k == "su") ret = t.ser(p, [&](std::size_t m) -> char* { Busy z; ub.resize(m + 1); put(&in, "v", "buf " + std::to_string(m)); yieldNow(); return ub.data(); });
    else if (k == "sr") n = t.deserRet(t.ser(p, nullptr));
    else if (k == "tr") tv = io.trav(p);
    else if (k == "wf") t.toFile(p, f);
    else if (k == "ws") t.toStream(p, st);
    else if (k == "de") n = t.deser(img.data());
    else if (k == "du") n = t.deserObj(img.data(), at);
    else if (k == "di") t.deserIn(img.data(), p);
    else if (k == "rf" || k == "cuf") n = t.fromFile(f);
    else if (k == "ri") t.fromFileIn(f, p);
    else if (k == "rs" || k == "cut") n = t.fromStream(st);
    else if (k == "rt") t.fromStreamIn(st, p);
    else if (k == "nof") n = t.fromFile(scratch + "/missing/x");
    else exit(97);
  }
  catch (checkpoint::dispatch::serialization_error const& x) { Busy z; out = "serr " + esc(x.what()); }
  catch (GateError const&) { Busy z; out = "user"; }
  catch (std::runtime_error const& x) { Busy z; out = "rt " + esc(x.what()); }
  catch (std::exception const& x) { Busy z; out = "std"; }
  catch (...) { Busy z; out = "unk"; }
  cur = nullptr;
  {
    Busy z;
    if (k == "fp" || k == "gs") res = std::to_string(sz);
    else if (ret && ret->getBuffer()) res = digest(std::string(ret->getBuffer(), ret->getSize()));
    else if (k == "tr") res = tv;
    else if (k == "wf" && out == "ok") res = digest(slurp(f));
    else if (k == "ws" && out == "ok") res = digest(st.content());
    if (n) { auto c = canon(t.proj(n)); res += " new " + digest(c); if (k == "du") t.destruct(n); else t.destroy(n); }
    // the object of a failed in-place deserialization is unspecified
    if (p) { if (!(over && out != "ok")) { auto c = canon(t.proj(p)); res += " obj " + digest(c); } t.destroy(p); }
    ret.reset();
    ::unlink(f.c_str());
    if (out.compare(0, 2, "rt") == 0 && (k == "nof" || k == "cuf")) out = "rt";      // messages that name the file
    if (out.compare(0, 4, "serr") == 0) out = "serr";
    put(&in, "e", out + " | " + res);
    cur = up;
  }
}
static void runJob(Job& j, int depth) { runJobIn(j, depth, nullptr); }

static std::vector<std::vector<int>> lists(std::string const& s) {
  std::vector<std::vector<int>> r(1); std::istringstream is(s); std::string w;
  while (is >> w) { if (w == "|") r.emplace_back(); else r.back().push_back(atoi(w.c_str())); }
  return r;
}
static bool waitFor(sem_t* s, long ms) {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += ms * 1000000; ts.tv_sec += ts.tv_nsec / 1000000000; ts.tv_nsec %= 1000000000;
  int r; while ((r = sem_timedwait(s, &ts)) && errno == EINTR) {}
  return r == 0;
}
// lets thread t run to its next scheduling point; one that does not get there (it waits for
// something another thread holds) is left running, and picked up when it arrives
static void step(Thr& t) {
  if (t.running) { if (sem_trywait(&t.back)) return; t.running = false; }
  if (t.done) return;
  sem_post(&t.go);
  if (!waitFor(&t.back, 1000)) t.running = true;
}
static void scheduled(std::vector<std::vector<int>> const& ls) {       // ls: [allocs warm] [thread]... [schedule]
  auto const& sched = ls.back(); std::size_t const n = ls.size() - 2;
  if (ls[0].at(1)) { for (std::size_t i = 1; i <= n; i++) for (int j : ls[i]) runJob(jobs.at(j), 9); std::lock_guard<std::mutex> g(mu); events.clear(); }
  allocGates = ls[0].at(0); baton = true;
  for (std::size_t i = 0; i < n; i++) { thr.push_back(std::make_unique<Thr>()); sem_init(&thr[i]->go, 0, 0); sem_init(&thr[i]->back, 0, 0); }
  for (std::size_t i = 0; i < n; i++) {
    Thr* t = thr[i].get(); auto const* l = &ls[i + 1];
    t->th = std::thread([t, l] {
      while (sem_wait(&t->go)) {}
      me = t;
      for (int j : *l) { runJob(jobs.at(j), 0); yieldNow(); }
      me = nullptr; t->done = true; sem_post(&t->back);
    });
  }
  for (int s : sched) if ((std::size_t)s <= n && s > 0) step(*thr[(std::size_t)s - 1]);
  for (bool all = false; !all;) {
    all = true;
    for (auto& t : thr) { while (!(t->done && !t->running)) { bool was = t->running; step(*t); if (t->running) { all = false; if (was) usleep(1000); break; } } }
  }
  baton = false;
  for (auto& t : thr) t->th.join();
}
static void freely(std::vector<std::vector<int>> const& ls) {
  std::mutex m; std::map<std::pair<int, std::string>, std::vector<std::string>> seen; std::atomic<std::size_t> ready{0}; std::atomic<long> total{0};
  std::vector<std::thread> ts; int const times = ls[0].at(0); std::size_t const n = ls.size() - 1;
  for (std::size_t i = 1; i <= n; i++) ts.emplace_back([&, i] {
    ready++; while (ready < n) {}
    for (int r = 0; r < times; r++) for (int j : ls[i]) {
      std::vector<std::string> own; runJobIn(jobs.at(j), 0, &own); total++;
      std::string key; for (auto& o : own) { auto p = o.find("\"s\":"), q = o.find("\"j\":"); key += o.substr(q, o.find(',', q) - q) + o.substr(p); }
      std::lock_guard<std::mutex> g(m); auto& s = seen[{j, key}]; if (s.empty()) s = own;
    }
  });
  for (auto& t : ts) t.join();
  for (auto& s : seen) for (auto& l : s.second) events.push_back(l);
  events.push_back("{\"c\":" + std::to_string(curCase) + ",\"e\":\"n\",\"i\":0,\"j\":0,\"s\":\"" + std::to_string(total) + "\"}\n");
}

template <typename F> static void inChild(FILE* tr, F&& f) {
  fflush(tr); fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    watch(20); f();
    for (auto& e : events) fwrite(e.data(), 1, e.size(), tr);
    fflush(tr); _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97) exit(97);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    fseek(tr, 0, SEEK_END);
    fprintf(tr, "{\"c\":%d,\"e\":\"crash\",\"i\":0,\"j\":0,\"s\":\"%s %d\"}\n", curCase, WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) ? "hang" : "crash", st); fflush(tr);
  }
  for (int i = 0; i < 64; i++) ::unlink((scratch + "/f" + std::to_string(i)).c_str());
}
int main(int argc, char** argv) {
  if (argc < 4) return 97;
  { rlimit rl{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_AS, &rl); }
  std::ifstream in(argv[1]); FILE* tr = fopen(argv[2], "a"); scratch = argv[3];
  int first = argc > 4 ? atoi(argv[4]) : 0;
  checkpoint::instantiateObjSerializer<P0, Trav>(); checkpoint::instantiateObjSerializer<P1, Trav>(); checkpoint::instantiateObjSerializer<P2, Trav>();
  checkpoint::instantiateObjSerializer<M0, Trav>(); checkpoint::instantiateObjSerializer<M1, Trav>(); checkpoint::instantiateObjSerializer<M2, Trav>();
  for (auto& p : table()) types[p.first] = p.second;
  std::string line; bool ready = false;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string op; is >> op;
    if (op == "JOB") {
      Job j; is >> j.id >> j.kind >> j.type >> j.throwPass >> j.throwAt; std::string rest; std::getline(is, rest);
      Parser p{rest.c_str()}; j.val = p.node(); j.other = p.node(); jobs[j.id] = j;
      continue;
    }
    if (op == "CASE") {
      if (!ready && first == 0) {        // the images that operations read
        fflush(tr); pid_t pid = fork();
        if (pid == 0) {
          watch(60);
          try { for (auto& x : jobs) if (reads(x.second.kind)) { auto& t = types.at(x.second.type)->ops(); auto p = t.make(x.second.val); auto r = t.ser(p, nullptr); spit(imgName(x.first), std::string(r->getBuffer(), r->getSize())); } }
          catch (...) { _exit(1); }
          _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
      }
      ready = true; is >> curCase; nest.clear(); continue;
    }
    if (curCase < first) continue;
    std::string rest; std::getline(is, rest);
    if (op == "NEST") { int d, j, g, x; std::istringstream ns(rest); while (ns >> d >> j >> g >> x) nest[{d, j, g}] = x; continue; }
    printf("BEGIN %d\n", curCase); fflush(stdout);
    if (op == "SOLO") inChild(tr, [&] { runJob(jobs.at(atoi(rest.c_str())), 9); });
    else if (op == "RUN") inChild(tr, [&] { scheduled(lists(rest)); });
    else if (op == "FREE") inChild(tr, [&] { freely(lists(rest)); });
    else { fprintf(stderr, "harness: unknown op %s\n", op.c_str()); return 97; }
  }
  fclose(tr); printf("DONE\n"); return 0;
}
