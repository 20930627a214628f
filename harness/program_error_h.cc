// ProgramErrorController.
#include <algorithm>
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/program_error.h"
using namespace mpact::sim::generic;

int main() {
  std::unique_ptr<ProgramErrorController> c;
  std::map<int, std::unique_ptr<ProgramError>> handles;
  std::vector<int> known;
  int k = 1;
  auto name = [](int n) {
    return n == 0 ? std::string(ProgramErrorController::kInternalErrorName)
                  : n == 1 ? std::string("e") : "e" + std::to_string(n);
  };
  auto num = [&](const std::string& s) -> int {
    if (s == name(0)) return 0;
    for (int i = 1; i < 64; i++) if (name(i) == s) return i;
    return -100;
  };
  auto msg = [](const std::string& s) -> long long {
    for (size_t i = 0; i + 1 < s.size(); i++) {
      if (s[i] == '#' && isdigit(s[i + 1])) {
        long long v = atoll(s.c_str() + i + 1);
        if (i == 0 && s == "#" + std::to_string(v)) return v;
        return -(v + 1);
      }
    }
    return -1;
  };
  auto obs = [&](long long ret, vh::Out& o) {
    o.i(ret).b(c->HasError()).b(c->HasMaskedError()).b(c->HasUnmaskedError());
    auto names = [&](std::vector<std::string> v) {
      std::vector<int> r;
      for (auto& s : v) r.push_back(num(s));
      std::sort(r.begin(), r.end());
      o.list(r);
    };
    names(c->GetMaskedErrorNames());
    names(c->GetUnmaskedErrorNames());
    o.open();
    for (int n = 0; n < 64; n++) {
      if (!c->HasProgramErrorName(name(n))) continue;
      std::vector<long long> ms;
      for (auto& s : c->GetErrorMessages(name(n))) ms.push_back(msg(s));
      o.open().i(n).b(c->IsMasked(name(n))).list(ms).close();
    }
    o.close();
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args&, vh::Out& o) {
    handles.clear();
    c = std::make_unique<ProgramErrorController>("ctl");
    k = 1;
    obs(0, o);
  };
  h["add"] = [&](const vh::Args& a, vh::Out& o) { obs(c->AddProgramErrorName(name(vh::I(a[1]))), o); };
  h["raise"] = [&](const vh::Args& a, vh::Out& o) {
    c->Raise(name(vh::I(a[1])), "#" + std::to_string(k++));
    obs(0, o);
  };
  h["hraise"] = [&](const vh::Args& a, vh::Out& o) {
    int n = vh::I(a[1]);
    auto e = c->GetProgramError(name(n));
    if (e == nullptr) { obs(0, o); return; }
    if (e->name() != name(n)) { obs(-1, o); return; }
    // Alternate between a fresh handle and one kept from earlier.
    if (!handles[n]) handles[n] = std::move(e);
    (e && k % 2 ? e : handles[n])->Raise("#" + std::to_string(k));
    k++;
    obs(1, o);
  };
  h["clear"] = [&](const vh::Args& a, vh::Out& o) { c->Clear(name(vh::I(a[1]))); obs(0, o); };
  h["clearall"] = [&](const vh::Args& a, vh::Out& o) { c->ClearAll(); obs(0, o); };
  h["mask"] = [&](const vh::Args& a, vh::Out& o) { c->Mask(name(vh::I(a[1]))); obs(0, o); };
  h["unmask"] = [&](const vh::Args& a, vh::Out& o) { c->Unmask(name(vh::I(a[1]))); obs(0, o); };
  h["ismasked"] = [&](const vh::Args& a, vh::Out& o) { auto r = c->IsMasked(name(vh::I(a[1]))); obs(r, o); };
  h["msgs"] = [&](const vh::Args& a, vh::Out& o) { auto r = c->GetErrorMessages(name(vh::I(a[1]))).size(); obs(r, o); };
  return vh::Main(h);
}
