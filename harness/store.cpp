// Steps scripts (behaviours of spec/Store.tla) through the real library and records one
// event per operation. usage: store SCRIPT TRACE SCRATCHDIR [firstCase]
#include "ops.h"
#include "watch.h"
#include "prog.h"
#include "guard.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <signal.h>
#include <sys/stat.h>

namespace vt {
ProgCtl pctl;
std::vector<std::pair<int, TypeOps*>>& typeTable() { static std::vector<std::pair<int, TypeOps*>> t; return t; }
}
using namespace vt;

#ifdef WITH_IOWRAP
#include "iowrap.h"
#else
static void armIo(int) {}
#endif
static FILE* tr;
static std::map<int, TypeOps*> types;
static std::string scratch;
static long seq = 0;
static int curCase = 0;

struct Obj { void* p = nullptr; TypeOps* t = nullptr; int ty = 0; std::unique_ptr<Guarded> in; void drop() { if (!p) return; if (in) t->destruct(p); else t->destroy(p); in.reset(); p = nullptr; } };
static std::map<int, Obj> objs;
static std::map<int, Guarded> imgs;
static std::map<int, std::unique_ptr<AnyStream>> streams;
static std::string fname(int f) { if (f == 9) return scratch + "/missing/f"; return scratch + "/f" + std::to_string(f); }

static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(std::string const& p, std::string const& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), (std::streamsize)b.size()); }
static std::string dig(std::string const& b) { return fnv(b.data(), b.size()); }

struct Ev {
  std::string op; int a = 0, b = 0; std::string out = "ok"; long long n1 = 0, n2 = 0, n3 = 0; std::string d; Node val; std::string what;
};
static std::string esc(std::string const& s) {
  std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\''; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) r += ' '; else r += c; } return r.substr(0, 160);
}
static void emit(Ev const& e) {
  std::string s = "{\"c\":" + std::to_string(curCase) + ",\"q\":" + std::to_string(++seq) + ",\"op\":\"" + e.op + "\",\"a\":" + std::to_string(e.a) +
    ",\"b\":" + std::to_string(e.b) + ",\"out\":\"" + e.out + "\",\"n1\":" + std::to_string(e.n1) + ",\"n2\":" + std::to_string(e.n2) +
    ",\"n3\":" + std::to_string(e.n3) + ",\"d\":\"" + e.d + "\",\"val\":" + json(e.val) + ",\"what\":\"" + esc(e.what) + "\"}\n";
  fwrite(s.data(), 1, s.size(), tr);
}
template <typename F> static void guard(Ev& e, F&& f) {
  try { f(); }
  catch (checkpoint::dispatch::serialization_error const& x) { e.out = "serr"; e.what = x.what(); }
  catch (std::runtime_error const& x) { e.out = "rt"; e.what = x.what(); }
  catch (std::exception const& x) { e.out = "std"; e.what = x.what(); }
  catch (...) { e.out = "unk"; }
}
static void setImg(int m, char const* p, std::size_t n) {
  Guarded g(n); if (n) memcpy(g.data, p, n); imgs.erase(m); imgs.emplace(m, std::move(g));
}
static std::string idig(int m) { auto& g = imgs.at(m); return fnv(g.data, g.len); }
static Node val(Obj& o) { return o.p ? abstract(o.t->proj(o.p)) : Node{}; }

// getBuffer()/getSize() of something bytes-like
static std::string bytesOf(char kind, int slot) {
  if (kind == 'm') { auto& g = imgs.at(slot); return std::string(g.data, g.len); }
  if (kind == 'f') return slurp(fname(slot));
  return streams.at(slot)->content();
}

// ---- reading one image in every possible way (C08, C09)
static std::map<int, Obj> protos;     // an object of each type, to deserialize over
static Obj freshProto(int ty);
static std::map<int, Node> protoVals;
static std::string lastWhat;

static Obj freshProto(int ty) {
  Obj o; o.t = types.at(ty); o.ty = ty; o.p = o.t->make(protoVals.at(ty)); return o;
}
// how: m memory, f file, s stream; in place or new. Returns the outcome; the value if ok.
static std::string readAs(char how, bool inplace, std::string const& bytes, int ty, Node& v, Guarded* g) {
  Ev x; Obj n; n.t = types.at(ty); n.ty = ty;
  if (inplace) n = freshProto(ty);
  std::string f = scratch + "/x";
  if (how == 'f') spit(f, bytes);
  if (how == 'F') { f = bytes; how = 'f'; }      // the file itself
  guard(x, [&] {
    if (how == 'm') { if (inplace) n.t->deserIn(g->data, n.p); else n.p = n.t->deser(g->data); }
    else if (how == 'f') { if (inplace) n.t->fromFileIn(f, n.p); else n.p = n.t->fromFile(f); }
    else { AnyStream st(0); st.append(bytes); if (inplace) n.t->fromStreamIn(st, n.p); else n.p = n.t->fromStream(st); }
  });
  if (f == scratch + "/x") ::unlink(f.c_str());
  if (x.out == "ok") v = val(n);
  lastWhat = x.what;
  n.drop();
  return x.out;
}
static Node acceptedNode(long long n, std::string const& out, Node const& v) { Node r; r.t = out; r.n = n; r.k.push_back(v); return r; }

// image of type own read as every type: n1 tried, n2 serialization errors, others listed
static void matrix(Ev& e, std::string const& bytes, char how, bool inplace, std::vector<int> const& as) {
  Guarded g(bytes.size()); memcpy(g.data, bytes.data(), bytes.size()); g.readonly();
  e.val.t = "matrix";
  for (int ty : as) {
    Node v; auto out = readAs(how, inplace, bytes, ty, v, &g);
    e.n1++; if (out == "serr") e.n2++;
    else if (e.val.k.size() < 5) { e.val.k.push_back(acceptedNode(ty, out, v)); if (e.what.empty() && out != "ok") e.what = lastWhat; }
    else e.n3++;
  }
}
// every proper prefix of bytes (zero: filled up with zeros again): n1 tried, n2 exceptions;
// those that did not throw are listed, with whether the content still was the whole image
static void torn(Ev& e, std::string const& bytes, char how, bool inplace, bool zero, int ty) {
  e.val.t = "torn";
  std::size_t const step = bytes.size() > 400 ? 7 : 1;
  for (std::size_t k = 0; k < bytes.size(); k += (k < 64 || k + 64 > bytes.size()) ? 1 : step) {
    std::string part = bytes.substr(0, k); if (zero) part.resize(bytes.size());
    Node v; auto out = readAs(how, inplace, part, ty, v, nullptr);
    e.n1++; if (out != "ok") e.n2++;
    else if (e.val.k.size() < 12) { auto r = acceptedNode((long long)k, out, v); r.v = part == bytes ? "same" : "differs"; e.val.k.push_back(r); }
    else e.n3++;
  }
}

void hugeCase(int which, int big, Node& out);
#ifndef WITH_HUGE
void hugeCase(int, int, Node&) { abort(); }
#endif

#ifdef WITH_CANARY
// every allocation is followed by canary bytes that are checked when it is freed
#include <new>
static unsigned char const canary_byte = 0xC5;
static std::size_t const canary_len = 48;
static void* canaryNew(std::size_t n) {
  char* p = static_cast<char*>(malloc(n + 16 + canary_len));
  if (!p) throw std::bad_alloc();
  memcpy(p, &n, sizeof n);
  memset(p + 16 + n, canary_byte, canary_len);
  return p + 16;
}
static void canaryDelete(void* q) {
  if (!q) return;
  char* p = static_cast<char*>(q) - 16; std::size_t n; memcpy(&n, p, sizeof n);
  for (std::size_t i = 0; i < canary_len; i++)
    if ((unsigned char)p[16 + n + i] != canary_byte) { fprintf(stderr, "bytes written past an allocation of %zu\n", n); abort(); }
  free(p);
}
void* operator new(std::size_t n) { return canaryNew(n); }
void* operator new[](std::size_t n) { return canaryNew(n); }
void operator delete(void* p) noexcept { canaryDelete(p); }
void operator delete[](void* p) noexcept { canaryDelete(p); }
void operator delete(void* p, std::size_t) noexcept { canaryDelete(p); }
void operator delete[](void* p, std::size_t) noexcept { canaryDelete(p); }
#endif

int main(int argc, char** argv) {
  if (argc < 4) return 97;
  { rlimit rl{2ul << 30, 24ul << 30}; setrlimit(RLIMIT_AS, &rl); }   // a size read from garbage must not take the machine
  std::ifstream in(argv[1]);
  tr = fopen(argv[2], "a");
  scratch = argv[3];
  int first = argc > 4 ? atoi(argv[4]) : 0;
  for (auto& p : typeTable()) types[p.first] = p.second;
  std::string line;
  bool on = false;
  auto endCase = [&] {
    if (!on) return;
    watch(10);
    for (auto& o : objs) o.second.drop();
    objs.clear(); imgs.clear(); streams.clear(); pctl.clear();
    for (int f = 1; f < 10; f++) ::unlink(fname(f).c_str());
    for (int f = 1; f < 10; f++) ::unlink((scratch + "/s" + std::to_string(f)).c_str());
    Ev e; e.op = "end"; e.n1 = seq; emit(e); fflush(tr);
    watch(0);
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op.empty()) continue;
    if (op == "CASE") {
      endCase();
      is >> curCase; on = curCase >= first; seq = 0;
      if (on) { printf("BEGIN %d\n", curCase); fflush(stdout); watch(10); }
      continue;
    }
    if (op == "PV") { int ty; is >> ty; std::string rest; std::getline(is, rest); protoVals[ty] = parse(rest); continue; }
    if (!on) continue;
    Ev e; e.op = op; pctl.begin();
    int a = 0, b = 0; is >> a >> b; e.a = a; e.b = b;
    if (op == "mk") {            // mk obj type value
      std::string rest; std::getline(is, rest);
      Obj o; o.t = types.at(b); o.ty = b; o.p = o.t->make(parse(rest));
      objs[a].drop(); objs[a] = std::move(o); e.val = val(objs[a]);
    } else if (op == "rm") { objs.at(a).drop(); objs.erase(a);
    } else if (op == "gs") {     // getSize
      Obj& o = objs.at(a); guard(e, [&] { e.n1 = (long long)o.t->size(o.p); }); e.val = val(o);
    } else if (op == "fp") {
      Obj& o = objs.at(a); guard(e, [&] { e.n1 = (long long)o.t->footprint(o.p, (std::size_t)b); }); e.val = val(o); e.n2 = (long long)o.t->sizeOf();
    } else if (op == "se") {     // library buffer -> image b
      Obj& o = objs.at(a);
      guard(e, [&] { auto r = o.t->ser(o.p, nullptr); e.n1 = (long long)r->getSize(); setImg(b, r->getBuffer(), r->getSize()); e.d = idig(b); });
      e.val = val(o);
    } else if (op == "su" || op == "sn") {  // caller's buffer / null answer
      Obj& o = objs.at(a); Guarded ub; long long calls = 0, asked = -1;
      guard(e, [&] {
        auto r = o.t->ser(o.p, [&](std::size_t n) -> char* { ++calls; asked = (long long)n; if (op == "sn") return nullptr; ub = Guarded(n, (n % 2) != 0); return ub.data; });
        e.n1 = (long long)r->getSize();
        bool same = op == "sn" ? r->getBuffer() != nullptr : (r->getBuffer() == ub.data && ub.intact());
        e.what = same ? "same" : "other";
        setImg(b, r->getBuffer(), r->getSize()); e.d = idig(b);
        r.reset();
        if (op == "su" && fnv(ub.data, ub.len) != e.d) e.what = "changed after";
      });
      e.n2 = calls; e.n3 = asked; e.val = val(o);
      if (ub.data && !ub.intact()) e.d = "overrun";
    } else if (op == "sr") {     // serialize and hand the SerializedReturnType to deserialize: new object b
      Obj& o = objs.at(a); Obj n; n.t = o.t; n.ty = o.ty;
      guard(e, [&] { auto r = o.t->ser(o.p, nullptr); e.n1 = (long long)r->getSize(); n.p = o.t->deserRet(std::move(r)); });
      if (n.p) { objs[b].drop(); objs[b] = std::move(n); e.val = val(objs[b]); }
    } else if (op == "wf") {
      Obj& o = objs.at(a); guard(e, [&] { o.t->toFile(o.p, fname(b)); auto s = slurp(fname(b)); e.n1 = (long long)s.size(); e.d = dig(s); });
      e.val = val(o);
    } else if (op == "ns") {     // new stream a of kind b
      streams[a] = std::make_unique<AnyStream>(b, scratch + "/s" + std::to_string(a));
    } else if (op == "ws") {
      Obj& o = objs.at(a); auto& s = *streams.at(b);
      auto before = s.content();
      guard(e, [&] { o.t->toStream(o.p, s); });
      auto after = s.content();
      e.n1 = (long long)(after.size() - before.size());
      e.n2 = after.compare(0, before.size(), before) == 0;
      e.d = dig(after.substr(std::min(before.size(), after.size()))); e.val = val(o);
    } else if (op == "as") {     // append b unrelated bytes to stream a
      streams.at(a)->append(std::string((std::size_t)b, '\x5a'));
    } else if (op == "ks") { streams.at(a)->skip(b);
    } else if (op == "dm" || op == "du" || op == "di") {
      auto& g = imgs.at(a); auto d0 = idig(a); g.readonly();
      int ty = 0; is >> ty;
      if (op == "di") { Obj& o = objs.at(b); guard(e, [&] { o.t->deserIn(g.data, o.p); }); e.val = val(o); }
      else {
        Obj n; n.t = types.at(ty); n.ty = ty;
        if (op == "dm") guard(e, [&] { n.p = n.t->deser(g.data); });
        else { auto ob = std::make_unique<Guarded>((n.t->sizeOf() + 15) / 16 * 16); char* place = ob->data; guard(e, [&] { n.p = n.t->deserObj(g.data, place); e.n1 = n.p == place; }); if (n.p) n.in = std::move(ob); }
        objs[b].drop(); objs.erase(b);
        if (n.p) { objs[b] = std::move(n); e.val = val(objs[b]); }
      }
      e.d = idig(a); e.n2 = e.d == d0;
    } else if (op == "rf" || op == "ri") {
      int ty = 0; is >> ty; auto d0 = dig(slurp(fname(a)));
      if (op == "ri") { Obj& o = objs.at(b); guard(e, [&] { o.t->fromFileIn(fname(a), o.p); }); e.val = val(o); }
      else { Obj n; n.t = types.at(ty); n.ty = ty; guard(e, [&] { n.p = n.t->fromFile(fname(a)); }); objs[b].drop(); objs.erase(b); if (n.p) { objs[b] = std::move(n); e.val = val(objs[b]); } }
      auto d1 = dig(slurp(fname(a))); e.d = d1; e.n2 = d1 == d0;
    } else if (op == "rs" || op == "rt") {
      int ty = 0; is >> ty; auto& s = *streams.at(a); auto c0 = s.content(); long long p0 = s.pos();
      if (op == "rt") { Obj& o = objs.at(b); guard(e, [&] { o.t->fromStreamIn(s, o.p); }); e.val = val(o); }
      else { Obj n; n.t = types.at(ty); n.ty = ty; guard(e, [&] { n.p = n.t->fromStream(s); }); objs[b].drop(); objs.erase(b); if (n.p) { objs[b] = std::move(n); e.val = val(objs[b]); } }
      e.n1 = s.pos() - p0; e.n2 = s.content() == c0; e.d = dig(c0);
    } else if (op == "cp") {     // cp a b K1 K2 : copy raw bytes of K1 slot a to K2 slot b
      char k1 = 0, k2 = 0; is >> k1 >> k2; auto by = bytesOf(k1, a);
      if (k2 == 'm') setImg(b, by.data(), by.size()); else if (k2 == 'f') spit(fname(b), by); else streams.at(b)->append(by);
      e.d = dig(by); e.n1 = (long long)by.size(); e.what = std::string(1, k1) + k2;
    } else if (op == "tr") {     // tr a n K : truncate K slot a to n bytes (or by -n)
      char k = 0; is >> k; auto by = bytesOf(k, a); by.resize(b >= 0 ? std::min<std::size_t>((std::size_t)b, by.size()) : by.size() - std::min<std::size_t>((std::size_t)-b, by.size()));
      if (k == 'm') setImg(a, by.data(), by.size()); else if (k == 'f') spit(fname(a), by);
      else { int kind = streams.at(a)->kind; streams[a] = std::make_unique<AnyStream>(kind, scratch + "/s" + std::to_string(a)); streams.at(a)->append(by); }
      e.n1 = (long long)by.size();
    } else if (op == "mx") {     // mx a b K P lo hi: image of K slot a read as the types lo..hi (b: 1 = in place)
      char k = 0; int lo = 0, hi = 0; is >> k >> lo >> hi; std::vector<int> as;
      for (auto& t : types) if (t.first >= lo && t.first <= hi) as.push_back(t.first);
      watch(120); matrix(e, bytesOf(k, a), k, b != 0, as); watch(10); e.d = std::string(1, k);
    } else if (op == "jb") {     // jb a pos hex: overwrite bytes of image a
      std::string hx; is >> hx; auto by = bytesOf('m', a); auto raw = unhex(hx); bool same = true;
      for (std::size_t i = 0; i < raw.size() && b + i < by.size(); i++) { if (by[b + i] != raw[i]) same = false; by[b + i] = raw[i]; }
      setImg(a, by.data(), by.size()); e.n1 = same;
    } else if (op == "tn") {     // tn a b K ty zero: all cuts of K slot a, read back (b: 1 = in place)
      char k = 0; int ty = 0, zero = 0; is >> k >> ty >> zero; watch(120); torn(e, bytesOf(k, a), k, b != 0, zero != 0, ty); watch(10); e.d = std::string(1, k);
    } else if (op == "pg") {     // pg victim 0 S P U
      std::string x[3]; is >> x[0] >> x[1] >> x[2]; pctl.clear(); pctl.victim = a;
      for (int i = 0; i < 3; i++) pctl.prog[i] = x[i] == "-" ? "" : x[i];
    } else if (op == "kw") {     // kw obj file step io: write the file in a process that dies at the given step / file call
      Obj& o = objs.at(a); int step = -1, io = -1; is >> step >> io; fflush(tr); fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        watch(10); pctl.crashAt = step; armIo(io);
        try { o.t->toFile(o.p, fname(b)); } catch (...) { _exit(78); }
        _exit(0);
      }
      int st = 0; waitpid(pid, &st, 0); e.n1 = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
      auto s2 = slurp(fname(b)); e.n2 = (long long)s2.size(); e.d = dig(s2);
    } else if (op == "kr") {     // kr file inplace ty: read what was left, new object or over a prototype
      int ty = 0; is >> ty; auto s2 = slurp(fname(a)); e.d = dig(s2); Node v; Ev x;
      e.out = readAs('F', b != 0, fname(a), ty, v, nullptr); if (e.out == "ok") e.val = v; e.what = lastWhat;
#ifdef WITH_IOWRAP
    } else if (op == "iw" || op == "ir") {
      // iw obj file  pass step  call errno call errno ... : write, with failing calls / user code
      // ir file inplace ty  pass step  call errno ...     : read
      int ty = 0, pass = -1, step = -1, k, en; if (op == "ir") is >> ty; is >> pass >> step;
      Obj n; if (op == "ir") { if (b) n = freshProto(ty); else { n.t = types.at(ty); n.ty = ty; } }
      pctl.throwPass = pass; pctl.throwAt = step;
      std::string const path = fname(op == "iw" ? b : a);
      armIo(-1); ioctl_.path = path;
      while (is >> k >> en) ioctl_.fail.push_back({k, en});
      guard(e, [&] {
        if (op == "iw") { Obj& o = objs.at(a); o.t->toFile(o.p, path); }
        else if (b) n.t->fromFileIn(path, n.p); else n.p = n.t->fromFile(path);
      });
      ioctl_.armed = false;
      bool const planned = pass >= 0 && pctl.steps[pass] > step && step >= 0;
      pctl.throwPass = -1;
      long long left = (long long)ioctl_.live.size();
      for (int fd : ioctl_.own) if (fcntl(fd, F_GETFD) != -1) { left++; ::close(fd); }
      for (auto& m : ioctl_.live) ::munmap(m.p, m.n);
      for (auto& c : ioctl_.calls) {
        Ev x; x.op = "call"; x.what = c.name; x.a = (int)c.a; x.b = (int)c.b; x.n2 = c.len; x.n3 = c.flags; x.d = c.d;
        x.out = c.injected ? "inj" : c.ok ? "ok" : "err"; x.val.n = c.err; if (x.out == "ok") x.val.n = 0;
        emit(x);
      }
      auto s2 = slurp(path); e.d = dig(s2); e.n1 = planned || pctl.victim != -1; e.n2 = left; e.n3 = ioctl_.count;
      if (op == "ir" && n.p) { if (e.out == "ok") e.val = val(n); n.drop(); }
#endif
    } else if (op == "hg") {
      rlimit keep, more{24ul << 30, 24ul << 30}; getrlimit(RLIMIT_AS, &keep); setrlimit(RLIMIT_AS, &more);
      watch(120); guard(e, [&] { hugeCase(a, b, e.val); });
      setrlimit(RLIMIT_AS, &keep);
    } else { fprintf(stderr, "harness: unknown op %s\n", op.c_str()); return 97; }
    emit(e);
  }
  endCase();
  fclose(tr);
  printf("DONE\n");
  return 0;
}
