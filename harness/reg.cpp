// Steps scripts through a program made of several translation units; every case runs in a
// process of its own, so that first uses happen in the order the case gives.
// usage: reg SCRIPT TRACE SCRATCHDIR [firstCase]
#include "reg.h"
#include "watch.h"
#include <fstream>
#include <iostream>
#include <map>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
namespace rg { std::vector<Visit> visits; std::string scratchFile; }
rg::TuOps* tu_0(); rg::TuOps* tu_1(); rg::TuOps* tu_2(); rg::TuOps* tu_3();

using vt::Node;
static FILE* tr;

static void runCase(int c, std::vector<std::string> const& lines) {
  rg::TuOps* tus[] = {tu_0(), tu_1(), tu_2(), tu_3()};
  std::map<int, std::string> img;
  for (auto const& line : lines) {
    std::istringstream is(line);
    std::string op; int k = 0; is >> op >> k;
    rg::TuOps& tu = *tus[k];
    int t = 0, s = 0, j = 0; std::string h, m, rest, nm, d; long long id = -1; std::vector<std::uint32_t> ids; Node val;
    char const* out = "ok";
    rg::visits.clear();
    try {
      if (op == "id") { is >> t; id = tu.typeId(t); nm = tu.typeName(t); }
      else if (op == "many") { ids = tu.many(); }
      else if (op == "cls") { is >> nm; id = tu.clsIdx(nm); }
      else if (op == "ser") { is >> t >> s; std::getline(is, rest); val = vt::parse(rest); img[s] = tu.ser(t, val); d = vt::hex(img[s].data(), img[s].size()); }
      else if (op == "de") {
        is >> t >> s; auto& i = img[s]; Guarded g(i.size()); memcpy(g.data, i.data(), i.size());
        val = tu.de(t, g.data);
      }
      else if (op == "ps") { is >> h >> m >> s; std::getline(is, rest); val = vt::parse(rest); img[s] = tu.pser(h[0], m[0], val); }
      else if (op == "pd") { is >> h >> m >> s; val = tu.pde(h[0], m[0], img[s]); }
      else if (op == "pi") { is >> h >> m >> s; std::getline(is, rest); val = tu.pin(h[0], m[0], img[s], vt::parse(rest)); }
      else if (op == "in") { is >> j; tu.inst(j); }
      else if (op == "tr") { is >> j >> h; std::getline(is, rest); val = vt::parse(rest); d = tu.trav(j, h[0], val); d = vt::hex(d.data(), d.size()); }
      else exit(97);
    } catch (checkpoint::dispatch::serialization_error const&) { out = "serr"; val = Node(); }
    catch (std::exception const& e) { out = "std"; nm = e.what(); val = Node(); for (auto& ch : nm) if (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ch = ' '; }
    fprintf(tr, "{\"c\":%d,\"e\":\"%s\",\"tu\":%d,\"t\":%d,\"s\":%d,\"j\":%d,\"h\":\"%s\",\"m\":\"%s\",\"out\":\"%s\",\"id\":\"%lld\",\"nm\":\"%s\",\"d\":\"%s\",\"ids\":[", c, op.c_str(), k, t, s, j, h.c_str(), m.c_str(), out, id, nm.c_str(), d.c_str());
    for (std::size_t i = 0; i < ids.size(); i++) fprintf(tr, "%s\"%u\"", i ? "," : "", ids[i]);
    fprintf(tr, "],\"vis\":[");
    for (std::size_t i = 0; i < rg::visits.size(); i++) fprintf(tr, "%s[\"%s\",\"%s\"]", i ? "," : "", rg::visits[i].cls, rg::visits[i].by);
    fprintf(tr, "],\"val\":%s}\n", vt::json(val).c_str());
    fflush(tr);
  }
  fprintf(tr, "{\"c\":%d,\"e\":\"end\",\"tu\":0,\"t\":0,\"s\":0,\"j\":0,\"h\":\"\",\"m\":\"\",\"out\":\"ok\",\"id\":\"\",\"nm\":\"\",\"d\":\"\",\"ids\":[],\"vis\":[],\"val\":%s}\n", c, vt::json(Node()).c_str());
  fflush(tr);
}

int main(int argc, char** argv) {
  if (argc < 4) return 97;
  { rlimit rl{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_AS, &rl); }
  std::ifstream in(argv[1]); tr = fopen(argv[2], "a"); rg::scratchFile = std::string(argv[3]) + "/f";
  int first = argc > 4 ? atoi(argv[4]) : 0, cur = 0; bool any = false;
  std::vector<std::string> lines; std::string line;
  auto run = [&] {
    if (any && cur >= first) {
      printf("BEGIN %d\n", cur); fflush(stdout); fflush(tr);
      pid_t p = fork();
      if (p == 0) { watch(10); runCase(cur, lines); _exit(0); }
      int st = 0; waitpid(p, &st, 0);
      if (st != 0) { fclose(tr); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z); raise(WTERMSIG(st)); } _exit(WEXITSTATUS(st)); }
    }
    lines.clear();
  };
  while (std::getline(in, line)) {
    if (line.compare(0, 5, "CASE ") == 0) { run(); cur = atoi(line.c_str() + 5); any = true; continue; }
    if (!line.empty()) lines.push_back(line);
  }
  run();
  fclose(tr); printf("DONE\n"); return 0;
}
