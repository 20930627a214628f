// The machine of IsaAsm.tla on generated assemblers.
#include "isaasm.h"
#include "harness.h"
namespace va {
std::map<int, Prog>& Progs() {
  static auto* p = new std::map<int, Prog>;
  return *p;
}
std::string Lower(std::string s) {
  for (auto& c : s) c = tolower(c);
  return s;
}
}  // namespace va
int main() {
  int p = 0;
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out&) { p = vh::I(a[1]); };
  h["encode"] = [&](const vh::Args& a, vh::Out& o) {
    auto r = va::Progs()[p].slots.at(a[1])(vh::I(a[2]), 4096, vh::Text(a[3]));
    if (!r.bad.empty()) {
      o.s("bad").s(r.bad);
      return;
    }
    if (!r.ok) {
      o.s("error");
      return;
    }
    auto list = [&o](const std::vector<va::Call>& v) {
      o.open();
      for (auto& c : v) o.open().s(c.kind).s(c.name).i(c.num).s(c.text).close();
      o.close();
    };
    o.s("ok").i(r.size).s(r.op).i(r.entry);
    list(r.calls);
    list(r.relocs);
  };
  return vh::Main(h);
}
