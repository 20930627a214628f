#include <algorithm>
#include <memory>
#include <set>
#include "harness.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"
using namespace mpact::sim::generic;

static std::vector<int> gone;
struct Dead {
  int k;
  explicit Dead(int k_) : k(k_) {}
  ~Dead() { gone.push_back(k); }
};
struct Pred : PredicateOperandInterface, Dead {
  explicit Pred(int k) : Dead(k) {}
  bool Value() override { return true; }
  std::string AsString() const override { return "p"; }
};
struct Src : ImmediateOperand<int>, Dead {
  explicit Src(int k) : ImmediateOperand<int>(k), Dead(k) {}
};
struct Dst : DestinationOperandInterface, Dead {
  explicit Dst(int k) : Dead(k) {}
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return k; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return "d"; }
};
struct Res : ResourceOperandInterface, Dead {
  explicit Res(int k) : Dead(k) {}
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
};
struct Inst;
static std::map<int, Inst*> live;
static std::vector<int> over;  // instructions destroyed twice
struct Inst : Instruction {
  int id;
  explicit Inst(int i) : Instruction(0x100 * i, nullptr), id(i) { live[i] = this; }
  ~Inst() override { if (!live.erase(id)) over.push_back(id); }
};
static int Id(Instruction* i) {
  if (!i) return 0;
  for (auto& [k, p] : live)
    if (p == i) return k;
  return -1;  // dangling
}

int main() {
  int nop = 0;
  std::map<int, int> user;
  std::vector<std::pair<int, int>> log;
  ReferenceCount ctx7;
  auto dump = [&](vh::Out& o) {
    o.open();
    for (auto& [k, p] : live) {
      o.open().i(k).i(p->ref_count()).i(Id(p->next())).i(Id(p->child())).i(Id(p->parent()));
      o.i(p->Predicate() ? static_cast<Pred*>(p->Predicate())->k : 0);
      o.open();
      for (int i = 0; i < p->SourcesSize(); i++) o.i(p->Source(i)->AsInt32(0));
      o.close().open();
      for (int i = 0; i < p->DestinationsSize(); i++) o.i(p->Destination(i)->latency());
      o.close().open();
      for (auto* r : p->ResourceHold()) o.i(static_cast<Res*>(r)->k);
      o.close().open();
      for (auto* r : p->ResourceAcquire()) o.i(static_cast<Res*>(r)->k);
      o.close();
      o.list(p->Attributes());
      o.close();
      if (p->address() != (uint64_t)(0x100 * k) || p->context() != nullptr || p->size() != k + 1 ||
          p->opcode() != 2 * k || p->AsString() != "i" + std::to_string(k))
        o.s("damaged");
    }
    o.close();
  };
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    gone.clear();
    log.clear();
    if (a[0] == "reset") {
      std::map<int, int> u = user;
      for (auto& [k, n] : u)
        for (int i = 0; i < n; i++) live[k]->DecRef();
      if (!live.empty()) o.s("leak");
      live.clear();
      user.clear();
      over.clear();
      nop = 0;
      return;
    }
    int i = vh::I(a[1]);
    if (a[0] == "new") {
      auto* p = new Inst(i);
      p->set_size(i + 1);
      p->set_opcode(2 * i);
      p->SetDisassemblyString("i" + std::to_string(i));
      std::string beh = a[2];
      user[i] = 1;
      p->set_semantic_function([&log, &ctx7, beh](Instruction* self) {
        int c = self->context() == nullptr ? 0 : self->context() == &ctx7 ? 7 : -1;
        log.push_back({Id(self), c});
        if (beh == "log") return;
        for (auto* k = self->child(); k != nullptr; k = k->next()) {
          if (beh == "kids" && c) k->Execute(self->context());
          else k->Execute();
        }
      });
    } else {
      Inst* p = live.at(i);
      if (a[0] == "append") p->Append(vh::I(a[2]) ? live.at(vh::I(a[2])) : nullptr);
      else if (a[0] == "child") p->AppendChild(vh::I(a[2]) ? live.at(vh::I(a[2])) : nullptr);
      else if (a[0] == "op") {
        if (a[2] == "src") p->AppendSource(new Src(++nop));
        else if (a[2] == "dst") p->AppendDestination(new Dst(++nop));
        else if (a[2] == "hold") p->AppendResourceHold(new Res(++nop));
        else if (a[2] == "acq") p->AppendResourceAcquire(new Res(++nop));
        else {
          p->SetPredicate(new Pred(++nop));
          p->SetPredicate(p->Predicate());
        }
      } else if (a[0] == "attr") {
        auto l = vh::L(a[2]);
        std::vector<int> v(l.begin(), l.end());
        p->SetAttributes(v);
        std::fill(v.begin(), v.end(), -5);  // attributes are copied
      } else if (a[0] == "exec") {
        if (vh::I(a[2])) p->Execute(&ctx7);
        else p->Execute();
      } else if (a[0] == "inc") {
        p->IncRef();
        user[i]++;
      } else if (a[0] == "dec") {
        user[i]--;
        p->DecRef();
      }
    }
    o.open();
    for (auto& [x, c] : log) o.open().i(x).i(c).close();
    o.close();
    std::sort(gone.begin(), gone.end());
    o.list(gone);
    dump(o);
    if (!over.empty()) o.s("destroyed twice");
    if (ctx7.ref_count() != 1) o.s("context");
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "new", "append", "child", "op", "attr", "exec", "inc", "dec"}) h[n] = gen;
  return vh::Main(h);
}
