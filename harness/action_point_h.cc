// Action points and breakpoints over a recording memory.
#include <memory>
#include <set>
#include "harness.h"
#include "absl/status/status.h"
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
using namespace mpact::sim::generic;

struct Mem : ActionPointMemoryInterface {
  std::set<uint64_t> patched, bad;
  absl::Status WriteOriginalInstruction(uint64_t a) override {
    if (bad.count(a)) return absl::InternalError("bad");
    patched.erase(a);
    return absl::OkStatus();
  }
  absl::Status WriteBreakpointInstruction(uint64_t a) override {
    if (bad.count(a)) return absl::InternalError("bad");
    patched.insert(a);
    return absl::OkStatus();
  }
};

struct Sys {
  Mem mem;
  std::unique_ptr<ActionPointManagerBase> ap;
  std::unique_ptr<BreakpointManager> bp;
  std::vector<int> fired;
  int halts = 0;
  int nset[4] = {0, 0, 0, 0};
  // spec address -> real address
  uint64_t base;
  uint64_t ad(int a) { return a == 1 ? base : a == 2 ? base + 0x1'0000'0000 : 0x77; }
  explicit Sys(uint64_t b) : base(b) {
    ap = std::make_unique<ActionPointManagerBase>(&mem);
    bp = std::make_unique<BreakpointManager>(ap.get(), [this] { halts++; });
  }
  absl::StatusOr<int> Set(int a, std::string beh) {
    auto token = std::make_shared<int>(5);  // owned by the action
    auto r = ap->SetAction(ad(a), [this, a, beh, token](uint64_t addr, int id) {
      fired.push_back(addr == ad(a) && *token == 5 ? id : -1);
      if (beh == "self") (void)ap->DisableAction(addr, id);
      if (beh == "zero") (void)ap->DisableAction(addr, 0);
      if (beh == "next") (void)ap->DisableAction(addr, id + 1);
      if (beh == "once") (void)ap->ClearAction(addr, id);
      if (beh == "drop") (void)ap->ClearAction(addr, id + 1);
      if (beh == "far") (void)Set(3 - a, "none");
      if (beh == "here") (void)Set(a, "none");
      if (beh == "all") {
        ap->ClearAllActionPoints();
        nset[1] = nset[2] = 0;
      }
      if (*token != 5) fired.push_back(-2);  // the action outlives its execution
    });
    if (r.ok()) nset[a] = r.value() + 1;
    return r;
  }
  void Obs(vh::Out& o) {
    o.open();
    for (int a = 1; a <= 2; a++) {
      o.open().b(mem.patched.count(ad(a))).b(ap->IsActionPointActive(ad(a))).b(ap->HasActionPoint(ad(a)));
      o.open();
      for (int i = 0; i < nset[a]; i++) o.b(ap->IsActionEnabled(ad(a), i));
      o.close();
      o.b(bp->HasBreakpoint(ad(a))).b(bp->IsBreakpoint(ad(a))).close();
    }
    o.close();
    uint64_t l = bp->last_breakpoint_address();
    o.i(l == ~0ULL ? 0 : l == ad(1) ? 1 : l == ad(2) ? 2 : -1);
  }
  void Handle(const vh::Args& a, vh::Out& o) {
    fired.clear();
    halts = 0;
    int x = a.size() > 1 ? vh::I(a[1]) : 0;
    int id = a.size() > 2 ? vh::I(a[2]) : 0;
    if (a[0] == "set") {
      auto r = Set(x, a[2]);
      o.b(r.ok()).i(r.ok() ? r.value() : -1);
      return Obs(o);
    }
    if (a[0] == "perform") {
      ap->PerformActions(ad(x));
      o.list(fired).i(halts);
      return Obs(o);
    }
    bool ok = true;
    if (a[0] == "clear") ok = ap->ClearAction(ad(x), id).ok();
    else if (a[0] == "enable") ok = ap->EnableAction(ad(x), id).ok();
    else if (a[0] == "disable") ok = ap->DisableAction(ad(x), id).ok();
    else if (a[0] == "bset") {
      ok = bp->SetBreakpoint(ad(x)).ok();
      if (ok) nset[x]++;
    } else if (a[0] == "bclear") ok = bp->ClearBreakpoint(ad(x)).ok();
    else if (a[0] == "benable") ok = bp->EnableBreakpoint(ad(x)).ok();
    else if (a[0] == "bdisable") ok = bp->DisableBreakpoint(ad(x)).ok();
    else if (a[0] == "fail") {
      if (!mem.bad.erase(ad(x))) mem.bad.insert(ad(x));
    } else if (a[0] == "bclearall") bp->ClearAllBreakpoints();
    else if (a[0] == "clearall") {
      ap->ClearAllActionPoints();
      nset[1] = nset[2] = 0;
    }
    o.b(ok).i(-1);
    Obs(o);
  }
};

int main(int argc, char** argv) {
  std::unique_ptr<Sys> sys;
  uint64_t base = argc > 1 ? strtoull(argv[1], nullptr, 0) : 0x1000;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      sys = std::make_unique<Sys>(base);
      return sys->Obs(o);
    }
    sys->Handle(a, o);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "set", "clear", "enable", "disable", "perform", "bset", "bclear", "benable", "bdisable",
                 "fail", "bclearall", "clearall"})
    h[n] = gen;
  return vh::Main(h);
}
