// The stream classes the harness uses. "A stream" for the library is any class with
// write/tellp and read/tellg and a conversion to bool.
#pragma once
#include <algorithm>
#include <fstream>
#include <ios>
#include <istream>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <cstring>

namespace vt {

// not derived from the standard streams, but with their vocabulary
struct OwnStream {
  using char_type = char;
  using traits_type = std::char_traits<char>;
  using int_type = int;
  using pos_type = std::streampos;
  using off_type = std::streamoff;
  std::string bytes;
  std::size_t rd = 0;
  std::ios_base::iostate state = std::ios_base::goodbit, thrown = std::ios_base::goodbit;
  std::streamsize got = 0;
  OwnStream& write(char const* p, std::streamsize n) { if (n) bytes.append(p, (std::size_t)n); return *this; }
  OwnStream& read(char* p, std::streamsize n) {
    got = 0;
    if (state != std::ios_base::goodbit) { setstate(std::ios_base::failbit); return *this; }
    std::size_t const k = std::min((std::size_t)n, bytes.size() - rd);
    if (k) std::memcpy(p, bytes.data() + rd, k);
    rd += k; got = (std::streamsize)k;
    if (k < (std::size_t)n) setstate(std::ios_base::eofbit | std::ios_base::failbit);
    return *this;
  }
  OwnStream& put(char c) { return write(&c, 1); }
  int get() { char c; read(&c, 1); return got ? (unsigned char)c : -1; }
  int peek() { if (rd == bytes.size()) { setstate(std::ios_base::eofbit); return -1; } return (unsigned char)bytes[rd]; }
  OwnStream& ignore(std::streamsize n = 1) { while (n-- > 0 && get() >= 0) {} return *this; }
  OwnStream& flush() { return *this; }
  std::streamsize gcount() const { return got; }
  std::streampos tellp() const { return fail() ? std::streampos(-1) : std::streampos((std::streamoff)bytes.size()); }
  std::streampos tellg() const { return fail() ? std::streampos(-1) : std::streampos((std::streamoff)rd); }
  OwnStream& seekg(std::streampos p) { state &= ~std::ios_base::eofbit; if (p >= 0 && (std::size_t)(std::streamoff)p <= bytes.size()) rd = (std::size_t)(std::streamoff)p; else setstate(std::ios_base::failbit); return *this; }
  OwnStream& seekg(std::streamoff o, std::ios_base::seekdir d) {
    return seekg(std::streampos(o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (std::streamoff)rd : (std::streamoff)bytes.size())));
  }
  bool good() const { return state == std::ios_base::goodbit; }
  bool bad() const { return (state & std::ios_base::badbit) != 0; }
  bool fail() const { return (state & (std::ios_base::badbit | std::ios_base::failbit)) != 0; }
  bool eof() const { return (state & std::ios_base::eofbit) != 0; }
  std::ios_base::iostate rdstate() const { return state; }
  void clear(std::ios_base::iostate s = std::ios_base::goodbit) { state = s; if (state & thrown) throw std::ios_base::failure("own stream"); }
  void setstate(std::ios_base::iostate s) { clear(state | s); }
  std::ios_base::iostate exceptions() const { return thrown; }
  void exceptions(std::ios_base::iostate s) { thrown = s; clear(state); }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
};

// kind: 0 stringstream, 1 std::ostream&/std::istream& over a stringbuf, 2 OwnStream, 3 fstream on a file
struct AnyStream {
  int kind;
  std::unique_ptr<std::stringstream> ss;
  OwnStream own;
  std::unique_ptr<std::fstream> fs;
  std::string path;
  explicit AnyStream(int k, std::string const& p = "") : kind(k), path(p) {
    if (k == 0 || k == 1) ss = std::make_unique<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary);
    if (k == 3) fs = std::make_unique<std::fstream>(p, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  }
  template <bool Own = true, typename F> void out(F&& f) {
    switch (kind) {
      case 0: f(*ss); break;
      case 1: f(static_cast<std::ostream&>(*ss)); break;
      case 2: if constexpr (Own) f(own); else abort(); break;
      default: fs->seekp(0, std::ios::end); f(*fs); fs->flush(); break;
    }
  }
  template <bool Own = true, typename F> void in(F&& f) {
    switch (kind) {
      case 0: f(*ss); break;
      case 1: f(static_cast<std::istream&>(*ss)); break;
      case 2: if constexpr (Own) f(own); else abort(); break;
      default: fs->seekg(rdpos); struct R { AnyStream& s; ~R() { if (*s.fs) s.rdpos = s.fs->tellg(); } } r{*this}; f(*fs); break;
    }
  }
  std::streamoff rdpos = 0;
  std::string content() {
    if (ss) return ss->str();
    if (kind == 2) return own.bytes;
    fs->flush(); std::ifstream f(path, std::ios::binary); std::stringstream x; x << f.rdbuf(); return x.str();
  }
  void append(std::string const& b) {
    if (ss) { ss->write(b.data(), (std::streamsize)b.size()); }
    else if (kind == 2) own.bytes += b;
    else { fs->seekp(0, std::ios::end); fs->write(b.data(), (std::streamsize)b.size()); fs->flush(); }
  }
  long long pos() {   // read position
    if (ss) { return (long long)ss->tellg(); }
    if (kind == 2) return (long long)own.rd;
    return (long long)rdpos;
  }
  void skip(long long n) {
    if (ss) ss->seekg(n, std::ios::cur);
    else if (kind == 2) own.rd += (std::size_t)n;
    else rdpos += n;
  }
};

} // namespace vt
