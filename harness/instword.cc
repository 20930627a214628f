// The machine of InstWord.tla on generated code: one instruction word.
#include "instword.h"
#include <fstream>
#include "harness.h"
namespace vw {
std::map<int, Prog>& Progs() {
  static auto* p = new std::map<int, Prog>;
  return *p;
}
}  // namespace vw
static uint64_t W(const std::string& s) {
  auto l = vh::L(s);
  uint64_t r = 0;
  for (size_t i = 0; i < l.size(); i++) r |= static_cast<uint64_t>(l[i]) << (16 * i);
  return r;
}
static void Put(vh::Out& o, uint64_t v) {
  for (int i = 0; i < 4; i++) o.i((v >> (16 * i)) & 0xffff);
}
int main(int argc, char** argv) {
  std::vector<std::string> status = {""};
  std::ifstream f(std::string(argv[0]) + ".status");
  std::string line;
  while (std::getline(f, line)) status.push_back(line);
  int p = 0;
  uint64_t w = 0;
  auto dec = [&](uint64_t x, vh::Out& o) {
    std::string op = "?", fmt = "?";
    vw::Progs()[p].dec(x, &op, &fmt);
    o.s(op).s(fmt);
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out&) { p = vh::I(a[1]); w = 0; };
  h["build"] = [&](const vh::Args&, vh::Out& o) { o.s(status[p]); };
  h["set"] = [&](const vh::Args& a, vh::Out& o) { w = W(a[1]); o.s("ok"); };
  h["dec"] = [&](const vh::Args& a, vh::Out& o) { dec(W(a[1]), o); };
  h["decode"] = [&](const vh::Args&, vh::Out& o) { dec(w, o); };
  h["ext"] = [&](const vh::Args& a, vh::Out& o) {
    uint64_t r;
    if (vw::Progs()[p].ext[a[1] + "." + a[2]](w, vh::I(a[3]), &r)) Put(o, r);
    else o.s("absent");
  };
  h["ins"] = [&](const vh::Args& a, vh::Out& o) {
    uint64_t r;
    if (vw::Progs()[p].ins[a[1] + "." + a[2]](w, vh::I(a[3]), W(a[4]), &r)) { w = r; Put(o, r); }
    else o.s("absent");
  };
  h["enc"] = [&](const vh::Args& a, vh::Out& o) {
    uint64_t r = 0; int width = 0;
    if (!vw::Progs()[p].enc(a[1], &r, &width)) { o.s("absent"); return; }
    w = r;
    o.open(); Put(o, r); o.close(); o.i(width);
  };
  return vh::Main(h);
}
