// Line protocol shared by all harnesses: one operation per input line, one JSON
// array per output line. "reset ..." starts a new behaviour.
#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vh {
using Args = std::vector<std::string>;

inline long long I(const std::string& s) { return strtoll(s.c_str(), nullptr, 0); }
inline unsigned long long U(const std::string& s) {
  return strtoull(s.c_str(), nullptr, 0);
}
// A text argument: white space and the empty text are encoded (lib/vlib.py).
inline std::string Text(const std::string& s) {
  std::string r;
  for (char c : s)
    if (c == 1) r += ' ';
    else if (c == 2) r += '\t';
    else if (c != 3) r += c;
  return r;
}
// "[1,2,3]" -> vector
inline std::vector<long long> L(const std::string& s) {
  std::vector<long long> r;
  std::string t = s.substr(1, s.size() - 2);
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, ',')) r.push_back(I(x));
  return r;
}
inline std::vector<std::string> LS(const std::string& s) {
  std::vector<std::string> r;
  std::string t = s.substr(1, s.size() - 2);
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, ',')) r.push_back(x);
  return r;
}

// Output builder.
class Out {
 public:
  Out& i(long long v) { sep(); s_ += std::to_string(v); return *this; }
  Out& b(bool v) { sep(); s_ += v ? "true" : "false"; return *this; }
  Out& s(const std::string& v) {
    sep();
    s_ += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s_ += '\\'; s_ += c; }
      else if (c < 32 || c > 126) { char u[8]; snprintf(u, 8, "\\u%04x", c); s_ += u; }
      else s_ += c;
    }
    s_ += '"';
    return *this;
  }
  Out& open() { sep(); s_ += '['; first_ = true; return *this; }
  Out& close() { s_ += ']'; first_ = false; return *this; }
  template <typename C>
  Out& list(const C& c) { open(); for (auto const& x : c) i((long long)x); return close(); }
  template <typename C>
  Out& slist(const C& c) { open(); for (auto const& x : c) s(x); return close(); }
  std::string str() const { return "[" + s_ + "]"; }

 private:
  void sep() { if (!first_) s_ += ','; first_ = false; }
  std::string s_;
  bool first_ = true;
};

using Handler = std::function<void(const Args&, Out&)>;

inline int Main(const std::map<std::string, Handler>& h) {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream ss(line);
    Args a;
    std::string t;
    while (ss >> t) a.push_back(t);
    if (a.empty()) continue;
    auto it = h.find(a[0]);
    if (it == h.end()) {
      fprintf(stderr, "unknown op %s\n", a[0].c_str());
      return 77;
    }
    Out o;
    it->second(a, o);
    std::string r = o.str();
    r += '\n';
    fwrite(r.data(), 1, r.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
}  // namespace vh
#endif
