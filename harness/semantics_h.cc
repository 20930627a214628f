// Semantic function helpers (spec/Semantics.tla) and ArchState (spec/ArchStates.tla).
#include <memory>
#include <set>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
using namespace mpact::sim::generic;
using vh::Args;
using vh::I;
using vh::Out;

struct Arch : ArchState {
  Arch() : ArchState("a", nullptr) {}
};

// "[a,[b,c],d]" -> parts
static std::vector<std::string> Parts(const std::string& s) {
  std::vector<std::string> r;
  std::string t = s.substr(1, s.size() - 2), x;
  int d = 0;
  for (char ch : t) {
    if (ch == '[') d++;
    if (ch == ']') d--;
    if (ch == ',' && d == 0) { r.push_back(x); x.clear(); continue; }
    if (ch != '"' && ch != ' ') x += ch;
  }
  if (!t.empty()) r.push_back(x);
  return r;
}

using W = long long;
static W F(const std::string& f, const std::vector<W>& a) {
  if (f == "add") { W s = 0; for (W x : a) s += x; return s; }
  if (f == "fst") return a[0];
  if (f == "lst") return a.back();
  if (f == "neg") return -a[0];
  if (f == "lt") return a[0] < a.back();
  if (f == "mix") return 3 * a[0] - 2 * a.back();
  if (f == "pos") return a[0] > 0;
  if (f == "mid") return a[(a.size() + 1) / 2 - 1];
  abort();
}

using Sem = std::function<void(Instruction*)>;
template <typename R>
Sem One(const std::string& form, const std::string& f) {
  auto f1 = [f](R a) -> R { return static_cast<R>(F(f, {W(a)})); };
  auto f2 = [f](R a, R b) -> R { return static_cast<R>(F(f, {W(a), W(b)})); };
  auto f3 = [f](R a, R b, R c) -> R { return static_cast<R>(F(f, {W(a), W(b), W(c)})); };
  if (form == "u") return [=](Instruction* i) { UnaryOp<R>(i, f1); };
  if (form == "b") return [=](Instruction* i) { BinaryOp<R>(i, f2); };
  if (form == "uv") return [=](Instruction* i) { UnaryVectorOp<R>(i, f1); };
  if (form == "bv") return [=](Instruction* i) { BinaryVectorOp<R>(i, f2); };
  if (form == "tv") return [=](Instruction* i) { TernaryVectorOp<R>(i, f3); };
  abort();
}
template <typename R, typename A>
Sem Two(const std::string& form, const std::string& f) {
  auto f1 = [f](A a) -> R { return static_cast<R>(F(f, {W(a)})); };
  auto f2 = [f](A a, A b) -> R { return static_cast<R>(F(f, {W(a), W(b)})); };
  auto f3 = [f](A a, A b, A c) -> R { return static_cast<R>(F(f, {W(a), W(b), W(c)})); };
  if (form == "u") return [=](Instruction* i) { UnaryOp<R, A>(i, f1); };
  if (form == "b") return [=](Instruction* i) { BinaryOp<R, A>(i, std::function<R(A, A)>(f2)); };
  if (form == "uv") return [=](Instruction* i) { UnaryVectorOp<R, A>(i, f1); };
  if (form == "bv") return [=](Instruction* i) { BinaryVectorOp<R, A>(i, std::function<R(A, A)>(f2)); };
  if (form == "tv") return [=](Instruction* i) { TernaryVectorOp<R, A>(i, std::function<R(A, A, A)>(f3)); };
  abort();
}
template <typename R, typename A, typename B>
Sem Three(const std::string& form, const std::string& f) {
  auto f2 = [f](A a, B b) -> R { return static_cast<R>(F(f, {W(a), W(b)})); };
  if (form == "b") return [=](Instruction* i) { BinaryOp<R, A, B>(i, std::function<R(A, B)>(f2)); };
  if (form == "bv") return [=](Instruction* i) { BinaryVectorOp<R, A, B>(i, std::function<R(A, B)>(f2)); };
  abort();
}
template <typename R, typename A, typename B, typename C>
Sem Four(const std::string& form, const std::string& f) {
  auto f3 = [f](A a, B b, C c) -> R { return static_cast<R>(F(f, {W(a), W(b), W(c)})); };
  if (form == "tv") return [=](Instruction* i) { TernaryVectorOp<R, A, B, C>(i, std::function<R(A, B, C)>(f3)); };
  abort();
}
template <typename R, typename A>
Sem ByB(const std::string& form, const std::string& f, const std::vector<std::string>& t) {
  if (t.size() == 2) return Two<R, A>(form, f);
  if (t.size() == 3) {
    if (t[2] == "i8") return Three<R, A, int8_t>(form, f);
    if (t[2] == "u8") return Three<R, A, uint8_t>(form, f);
    if (t[2] == "i16") return Three<R, A, int16_t>(form, f);
    if (t[2] == "u16") return Three<R, A, uint16_t>(form, f);
  }
  if (t.size() == 4) {
    if (t[2] == "i8" && t[3] == "u16") return Four<R, A, int8_t, uint16_t>(form, f);
    if (t[2] == "i8" && t[3] == "i8") return Four<R, A, int8_t, int8_t>(form, f);
    if (t[2] == "u16" && t[3] == "i8") return Four<R, A, uint16_t, int8_t>(form, f);
    if (t[2] == "u8" && t[3] == "i16") return Four<R, A, uint8_t, int16_t>(form, f);
  }
  abort();
}
template <typename R>
Sem ByA(const std::string& form, const std::string& f, const std::vector<std::string>& t) {
  if (t.size() == 1) return One<R>(form, f);
  if (t[1] == "i8") return ByB<R, int8_t>(form, f, t);
  if (t[1] == "u8") return ByB<R, uint8_t>(form, f, t);
  if (t[1] == "i16") return ByB<R, int16_t>(form, f, t);
  if (t[1] == "u16") return ByB<R, uint16_t>(form, f, t);
  abort();
}
static Sem Make(const std::string& form, const std::string& f, const std::vector<std::string>& t) {
  if (t[0] == "i8") return ByA<int8_t>(form, f, t);
  if (t[0] == "u8") return ByA<uint8_t>(form, f, t);
  if (t[0] == "i16") return ByA<int16_t>(form, f, t);
  if (t[0] == "u16") return ByA<uint16_t>(form, f, t);
  if (t[0] == "i32") return ByA<int32_t>(form, f, t);
  abort();
}

static std::vector<int> gone;
struct Reg : Register<int32_t> {
  int id;
  Reg(ArchState* a, absl::string_view n, int i) : Register<int32_t>(a, n), id(i) {}
  ~Reg() override { gone.push_back(id); }
};
struct Fif : Fifo<uint32_t> {
  int id;
  Fif(ArchState* a, absl::string_view n, int i) : Fifo<uint32_t>(a, n, 4), id(i) {}
  ~Fif() override { gone.push_back(id); }
};

static std::unique_ptr<Arch> arch;
static std::vector<RegisterBase*> regs;  // of Semantics
static std::vector<Instruction*> prog;
// of ArchStates
struct Obj { Reg* r; Fif* f; };
static std::vector<Obj> objs;
static std::vector<FunctionDelayLine*> lines;
static std::vector<int> calls;
static W seen;
static int tag;

static void Drop() {
  for (auto* i : prog) i->DecRef();
  prog.clear();
  regs.clear();
  if (arch) {
    std::set<void*> owned;
    for (auto& [n, r] : *arch->registers()) owned.insert(r);
    for (auto& [n, f] : *arch->fifos()) owned.insert(f);
    for (auto& o : objs) {
      if (o.r && !owned.count(static_cast<RegisterBase*>(o.r))) { o.r->id = -1; delete o.r; }
      if (o.f && !owned.count(static_cast<FifoBase*>(o.f))) { o.f->id = -1; delete o.f; }
    }
  }
  gone.clear();
  arch.reset();
  objs.clear();
  lines.clear();
  calls.clear();
  tag = 0;
}
static const char* kNames[] = {"", "alpha", "b", "alphabet", "r1"};

int main() {
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    Drop();
    arch = std::make_unique<Arch>();
    lines.push_back(arch->function_delay_line());
    if (a.size() < 2) return;
    auto* r1 = arch->AddRegister<Register<int16_t>>("r1");
    auto* r2 = arch->AddRegister<Register<uint8_t>>("r2");
    auto* r3 = arch->AddRegister<VectorRegister<int8_t, 4>>("r3");
    auto* r4 = arch->AddRegister<VectorRegister<uint16_t, 3>>("r4");
    auto* r5 = arch->AddRegister<Register<int32_t>>("r5");
    auto* r6 = arch->AddRegister<Register<uint16_t>>("r6");
    regs = {r1, r2, r3, r4, r5, r6};
    auto src = [=](int k) -> SourceOperandInterface* {
      switch (k) {
        case 1: return r1->CreateSourceOperand();
        case 2: return r2->CreateSourceOperand();
        case 3: return r3->CreateSourceOperand();
        case 4: return r4->CreateSourceOperand();
        case 5: return r5->CreateSourceOperand();
        default: return r6->CreateSourceOperand();
      }
    };
    auto dst = [=](int k, int l) -> DestinationOperandInterface* {
      switch (k) {
        case 1: return r1->CreateDestinationOperand(l);
        case 2: return r2->CreateDestinationOperand(l);
        case 3: return r3->CreateDestinationOperand(l);
        case 4: return r4->CreateDestinationOperand(l);
        case 5: return r5->CreateDestinationOperand(l);
        default: return r6->CreateDestinationOperand(l);
      }
    };
    for (auto& t : Parts(a[1])) {
      auto p = Parts(t);
      auto* in = new Instruction(0x1000 + 4 * prog.size(), arch.get());
      in->set_semantic_function(Make(p[0], p[1], Parts(p[2])));
      in->AppendDestination(dst(I(p[3]), I(p[5])));
      for (auto& q : Parts(p[4])) {
        auto o = Parts(q);
        if (o[0] == "r") in->AppendSource(src(I(o[1])));
        if (o[0] == "i") in->AppendSource(new ImmediateOperand<int32_t>(I(o[1])));
        if (o[0] == "v") {
          std::vector<int16_t> v;
          for (auto& x : Parts(o[1])) v.push_back(I(x));
          in->AppendSource(new VectorImmediateOperand<int16_t>(v));
        }
      }
      prog.push_back(in);
    }
  };
  h["exec"] = [](const Args& a, Out&) { prog[I(a[1]) - 1]->Execute(nullptr); };
  h["regs"] = [](const Args&, Out& o) {
    for (int k = 1; k <= 6; k++) {
      auto* db = regs[k - 1]->data_buffer();
      o.open();
      if (k == 1) o.i(db->Get<int16_t>(0));
      if (k == 2) o.i(db->Get<uint8_t>(0));
      if (k == 3) for (int i = 0; i < 4; i++) o.i(db->Get<int8_t>(i));
      if (k == 4) for (int i = 0; i < 3; i++) o.i(db->Get<uint16_t>(i));
      if (k == 5) o.i(db->Get<int32_t>(0));
      if (k == 6) o.i(db->Get<uint16_t>(0));
      o.close();
    }
  };
  h["adv"] = [](const Args&, Out& o) {
    calls.clear();
    seen = 0;
    arch->AdvanceDelayLines();
    if (regs.empty()) {
      o.list(calls);
      o.i(seen).i(arch->cycle());
    }
  };
  h["new"] = [](const Args& a, Out& o) {
    int id = objs.size() + 1;
    std::string n = kNames[I(a[2])];
    if (a[1] == "r") {
      Reg* r;
      if (I(a[3])) {
        r = arch->AddRegister<Reg>(n, id);
      } else {
        r = new Reg(arch.get(), n, id);
        arch->AddRegister(r);
      }
      r->data_buffer()->Set<int32_t>(0, 0);
      objs.push_back({r, nullptr});
    } else {
      Fif* f;
      if (I(a[3])) {
        f = arch->AddFifo<Fif>(n, id);
      } else {
        f = new Fif(arch.get(), n, id);
        arch->AddFifo(f);
      }
      objs.push_back({nullptr, f});
    }
    o.i(id);
  };
  h["alias"] = [](const Args& a, Out&) {
    if (a[1] == "r") arch->AddRegister(kNames[I(a[2])], objs[I(a[3]) - 1].r);
    else arch->AddFifo(kNames[I(a[2])], objs[I(a[3]) - 1].f);
  };
  h["remove"] = [](const Args& a, Out&) {
    if (a[1] == "r") arch->RemoveRegister(kNames[I(a[2])]);
    else arch->RemoveFifo(kNames[I(a[2])]);
  };
  int nn = 3;
  h["look"] = [nn](const Args& a, Out& o) {
    size_t found = 0;
    for (int k = 1; k <= nn; k++) {
      int id = 0;
      if (a[1] == "r") {
        auto it = arch->registers()->find(kNames[k]);
        if (it != arch->registers()->end())
          for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].r && it->second == objs[i].r) id = i + 1;
      } else {
        auto it = arch->fifos()->find(kNames[k]);
        if (it != arch->fifos()->end())
          for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].f && it->second == objs[i].f) id = i + 1;
      }
      found += id != 0;
      o.i(id);
    }
    if (found != (a[1] == "r" ? arch->registers()->size() : arch->fifos()->size())) o.s("other names");
  };
  h["line"] = [](const Args&, Out&) { lines.push_back(arch->CreateAndAddDelayLine<FunctionDelayLine>()); };
  h["call"] = [](const Args& a, Out& o) {
    int t = ++tag;
    lines[I(a[1]) - 1]->Add(I(a[2]), [t] {
      if (calls.empty())
        for (auto& ob : objs)
          if (ob.r) seen += ob.r->data_buffer()->Get<int32_t>(0);
      calls.push_back(t);
    });
    o.i(t);
  };
  h["write"] = [](const Args& a, Out&) {
    std::unique_ptr<DestinationOperandInterface> d(objs[I(a[1]) - 1].r->CreateDestinationOperand(I(a[3])));
    auto* db = d->AllocateDataBuffer();
    db->SetSubmit<int32_t>(0, I(a[2]));
  };
  h["read"] = [](const Args& a, Out& o) {
    std::unique_ptr<SourceOperandInterface> s(objs[I(a[1]) - 1].r->CreateSourceOperand());
    o.i(s->AsInt32(0));
  };
  h["end"] = [](const Args&, Out& o) {
    std::set<void*> owned;
    for (auto& [n, r] : *arch->registers()) owned.insert(r);
    for (auto& [n, f] : *arch->fifos()) owned.insert(f);
    for (auto& ob : objs) {
      if (ob.r && !owned.count(static_cast<RegisterBase*>(ob.r))) { ob.r->id = -1; delete ob.r; }
      if (ob.f && !owned.count(static_cast<FifoBase*>(ob.f))) { ob.f->id = -1; delete ob.f; }
    }
    gone.clear();
    int n = objs.size();
    objs.clear();
    arch.reset();
    o.open();
    for (int i = 1; i <= n; i++) o.b(std::count(gone.begin(), gone.end(), i) == 1);
    o.close();
    lines.clear();
    tag = 0;
    gone.clear();
    arch = std::make_unique<Arch>();
    lines.push_back(arch->function_delay_line());
  };
  return vh::Main(h);
}
