// The machine of IsaDecode.tla on generated decoders.
#include "isadec.h"
#include <algorithm>
#include <fstream>
#include "harness.h"
namespace vi {
int last_sem = 0;
std::map<int, Prog>& Progs() {
  static auto* p = new std::map<int, Prog>;
  return *p;
}
static std::map<std::string, int64_t>& Vals() {
  static auto* p = new std::map<std::string, int64_t>;
  return *p;
}
int64_t Value(const std::string& n) { return Vals()[n]; }
std::string Lower(std::string s) {
  for (auto& c : s) c = tolower(c);
  return s;
}
std::string Plain(std::string s) {
  s.erase(std::remove(s.begin(), s.end(), '_'), s.end());
  return Lower(s);
}
}  // namespace vi
using vi::g::Instruction;
static const char* kRes[] = {"rd", "rd2", "fl", "acc", "alu", "mem", "bus", "vd", "lst"};
static void Emit(vh::Out& o, Instruction* inst, const std::string& op, const vi::Attrs& at) {
  o.open().s(op).open();
  for (auto* i = inst; i != nullptr; i = i->child()) {
    vi::last_sem = 0;
    i->Execute(nullptr);
    o.open().i(vi::last_sem).s(i->Predicate() ? i->Predicate()->AsString() : "").open();
    for (int k = 0; k < i->SourcesSize(); k++) o.s(i->Source(k)->AsString());
    o.close().open();
    for (int k = 0; k < i->DestinationsSize(); k++)
      o.open().s(i->Destination(k)->AsString()).i(i->Destination(k)->latency()).close();
    o.close().close();
  }
  o.close().s(inst->AsString()).open();
  auto attrs = inst->Attributes();
  for (auto n : {"a", "b", "c", "d"}) {
    int x = at.at(n);
    o.i(x < 0 ? -1 : static_cast<size_t>(x) < attrs.size() &&
                         attrs.size() == static_cast<size_t>(at.at("#")) ? attrs[x] : -9);
  }
  o.close().open();
  auto pick = [](const std::vector<vi::g::ResourceOperandInterface*>& v, const std::string& n,
                 bool* cx) {
    std::vector<std::pair<int, int>> r;
    for (auto* p : v) {
      auto* x = dynamic_cast<vi::Res*>(p);
      for (auto& m : x->names)
        if (m == n) {
          *cx |= x->complex;
          r.push_back({x->b, x->bad ? -9 : x->e});
        }
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  for (std::string n : kRes) {
    bool cx = false;
    auto h = pick(inst->ResourceHold(), n, &cx);
    auto a = pick(inst->ResourceAcquire(), n, &cx);
    o.open().s(h.empty() && a.empty() ? "none" : cx ? "complex" : "simple").open();
    for (auto& x : h) o.open().i(x.first).i(x.second).close();
    o.close().open();
    for (auto& x : a) o.open().i(x.first).i(x.second).close();
    o.close().close();
  }
  o.close().close();
}
int main(int argc, char** argv) {
  std::vector<std::string> status = {""};
  std::ifstream f(std::string(argv[0]) + ".status");
  std::string line;
  while (std::getline(f, line)) status.push_back(line);
  std::ifstream v(std::string(argv[0]) + ".vals");
  std::string n;
  int64_t x;
  while (v >> n >> x) vi::Vals()[n] = x;
  int p = 0;
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out&) { p = vh::I(a[1]); };
  h["build"] = [&](const vh::Args&, vh::Out& o) { o.s(status[p]); };
  h["decode"] = [&](const vh::Args& a, vh::Out& o) {
    vi::Attrs at;
    auto* i = vi::Progs()[p].slots.at(a[1])(a[2], vh::I(a[3]), vh::I(a[4]), &at);
    o.i(i->next() == nullptr && i->address() == static_cast<uint64_t>(vh::I(a[4])) ? i->size() : -9);
    Emit(o, i, a[2], at);
    i->DecRef();
  };
  h["word"] = [&](const vh::Args& a, vh::Out& o) {
    std::vector<vi::Attrs> at;
    auto ops = vh::LS(a[1]);
    auto* i = vi::Progs()[p].word(ops, vh::I(a[2]), &at);
    o.i(i->size()).open();
    size_t k = 0;
    for (auto* j = i; j != nullptr; j = j->next(), k++)
      Emit(o, j, k < ops.size() ? ops[k] : "?", at[std::min(k, at.size() - 1)]);
    o.close();
    i->DecRef();
  };
  return vh::Main(h);
}
