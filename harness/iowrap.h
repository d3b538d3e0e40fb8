#pragma once
#include <set>
#include <string>
#include <utility>
#include <vector>
namespace vt {
struct IoCall { std::string name; int index = 0; bool ok = false, injected = false; int err = 0; long long a = -1, b = -1, len = -1, flags = 0; std::string d; };
struct IoMap { void* p; std::size_t n; long long id; bool write; };
struct IoCtl {
  bool armed = false; int count = 0, dieAt = -1; long long maps = 0;
  std::vector<std::pair<int, int>> fail;      // call index -> errno
  std::vector<IoCall> calls; std::vector<IoMap> live; std::set<int> own; std::string path;
  void reset() { *this = IoCtl(); }
};
extern IoCtl ioctl_;
}
std::string contentDigest(std::string const& path);
void armIo(int at);
