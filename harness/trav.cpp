// usage: trav SCRIPT TRACE SCRATCHDIR [firstCase]     script: CASE n / RUN type value / STOP name...
#include "trav.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
#include "watch.h"
namespace tv {
std::map<std::type_index, std::string>& names() { static std::map<std::type_index, std::string> n; return n; }
std::map<int, TravOps*>& table() { static std::map<int, TravOps*> t; return t; }
static void bytes(FILE* tr, char const* p, std::size_t n) {
  fputc('[', tr);
  for (std::size_t i = 0; i < n; i++) fprintf(tr, "%s%d", i ? "," : "", (int)(unsigned char)p[i]);
  fputc(']', tr);
}
void event(FILE* tr, int c, char const* how, Log const& l) {
  fprintf(tr, "{\"c\":%d,\"how\":\"%s\",\"stop\":\"%s\",\"same\":%s,\"framing\":0,\"bytes\":", c, how, l.stop.c_str(), l.same ? "true" : "false");
  bytes(tr, l.bytes.data(), l.bytes.size());
  fprintf(tr, ",\"opens\":[");
  for (std::size_t i = 0; i < l.opens.size(); i++) { auto& o = l.opens[i]; fprintf(tr, "%s[\"%s\",%zu,%zu]", i ? "," : "", o.name.c_str(), o.s, o.e); }
  fprintf(tr, "],\"val\":%s}\n", vt::json(Node()).c_str());
  fflush(tr);
}
void image(FILE* tr, int c, char const* buf, std::size_t n, std::size_t framing, Node const& v) {
  fprintf(tr, "{\"c\":%d,\"how\":\"image\",\"stop\":\"\",\"same\":true,\"framing\":%zu,\"bytes\":", c, framing);
  bytes(tr, buf, n);
  fprintf(tr, ",\"opens\":[],\"val\":%s}\n", vt::json(v).c_str());
  fflush(tr);
}
}
int main(int argc, char** argv) {
  if (argc < 4) return 97;
  { rlimit rl{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_AS, &rl); }
  std::ifstream in(argv[1]); FILE* tr = fopen(argv[2], "a");
  int first = argc > 4 ? atoi(argv[4]) : 0, cur = 0, ty = 0;
  std::string line, val;
  checkpoint::instantiateObjSerializer<vt::PolyBase, tv::Plain, tv::Typed, tv::Observer>();
  checkpoint::instantiateObjSerializer<vt::PolyMid, tv::Observer, tv::Typed, tv::Plain>();   // every class meets them in its own order
  checkpoint::instantiateObjSerializer<vt::PolyLeaf, tv::Typed, tv::Plain, tv::Observer>();
  tv::names()[typeid(vt::PolyBase)] = "PolyBase"; tv::names()[typeid(vt::PolyMid)] = "PolyMid"; tv::names()[typeid(vt::PolyLeaf)] = "PolyLeaf";
  tv::names()[typeid(std::unique_ptr<vt::PolyBase>)] = "PolyPtr";
  while (std::getline(in, line)) {
    if (line.compare(0, 5, "CASE ") == 0) { cur = atoi(line.c_str() + 5); continue; }
    if (cur < first) continue;
    if (line.compare(0, 4, "RUN ") == 0) { std::istringstream is(line.substr(4)); is >> ty; std::getline(is, val); continue; }
    if (line.compare(0, 4, "STOP") == 0) {
      printf("BEGIN %d\n", cur); fflush(stdout); watch(10);
      std::istringstream is(line.substr(4)); std::vector<std::string> stops; std::string s; while (is >> s) stops.push_back(s);
      try { tv::table().at(ty)->run(vt::parse(val), tr, cur, stops); }
      catch (std::exception const& e) {
        fprintf(tr, "{\"c\":%d,\"how\":\"threw\",\"stop\":\"\",\"same\":true,\"framing\":0,\"bytes\":[],\"opens\":[],\"val\":%s}\n", cur, vt::json(vt::Node()).c_str()); fflush(tr);
      }
    }
  }
  fclose(tr); printf("DONE\n"); return 0;
}
