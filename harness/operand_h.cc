// Every kind of source operand, for every integer element type.
#include <cstring>
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/status_register.h"
#include "mpact/sim/generic/wrapper_operand.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("st") {} };
struct Wrapped { std::string AsString() { return "wrapped"; } };
static Wrapped wrapped;

using Bytes = std::vector<long long>;
using Src = std::unique_ptr<SourceOperandInterface>;
using Dst = std::unique_ptr<DestinationOperandInterface>;

template <typename T>
void Put(vh::Out& o, T v) {
  o.open();
  uint64_t u = (uint64_t)v;
  for (size_t i = 0; i < sizeof(T); i++) o.i((u >> (8 * i)) & 0xff);
  o.close();
}
void Reading(vh::Out& o, SourceOperandInterface* s, int i) {
  o.open().b(s->AsBool(i));
  Put(o, s->AsInt8(i)); Put(o, s->AsUint8(i)); Put(o, s->AsInt16(i)); Put(o, s->AsUint16(i));
  Put(o, s->AsInt32(i)); Put(o, s->AsUint32(i)); Put(o, s->AsInt64(i)); Put(o, s->AsUint64(i));
  o.close();
  o.s(s->AsString());
}
template <typename T>
T Make(const Bytes& b) {
  uint64_t u = 0;
  for (size_t i = 0; i < b.size(); i++) u |= (uint64_t)b[i] << (8 * i);
  return (T)u;
}

struct Kind {
  virtual ~Kind() = default;
  virtual void Set(int i, const Bytes& b) = 0;
  virtual SourceOperandInterface* src() = 0;
  virtual void Describe(vh::Out& o) { o.list(src()->shape()).s(src()->AsString()); }
  virtual void Mask(const Bytes& m, vh::Out& o) {}
};

template <typename T>
struct Imm : Kind {
  int mode; bool named; Src s; std::vector<T> e{0, 0, 0};
  Imm(int m, bool n) : mode(m), named(n) { Make_(); }
  void Make_() {
    T v = e[0];
    std::vector<int> sh{4, 2};
    if constexpr (!std::is_same_v<T, bool>) {
      if (mode == 2) { s.reset(named ? nullptr : new VectorImmediateOperand<T>(e)); return; }
    }
    if (mode == 0) s.reset(named ? new ImmediateOperand<T>(v, "alias") : new ImmediateOperand<T>(v));
    if (mode == 1) s.reset(named ? new ImmediateOperand<T>(v, sh, "alias") : new ImmediateOperand<T>(v, sh));
  }
  void Set(int i, const Bytes& b) override { e[mode == 2 ? i : 0] = Make<T>(b); Make_(); }
  SourceOperandInterface* src() override { return s.get(); }
};

template <int V>
SourceOperandInterface* MkLit(bool named, bool vec) {
  std::vector<int> sh{7};
  if (vec) return named ? new IntLiteralOperand<V>(sh, "alias") : new IntLiteralOperand<V>(sh);
  return named ? new IntLiteralOperand<V>("alias") : new IntLiteralOperand<V>();
}
struct Lit : Kind {
  bool named, vec; Src s;
  Lit(bool n, bool v) : named(n), vec(v) { s.reset(MkLit<0>(n, v)); }
  void Set(int, const Bytes& b) override {
    int32_t v = (int32_t)Make<uint32_t>(b);
    s.reset();
#define L(x) if (v == (x)) s.reset(MkLit<(x)>(named, vec));
    L(0) L(1) L(-1) L(127) L(128) L(255) L(256) L(-128) L(-129) L(32767) L(32768) L(65535) L(65536) L(-32768)
    L(INT32_MAX) L(INT32_MIN)
#undef L
    if (!s) exit(78);
  }
  SourceOperandInterface* src() override { return s.get(); }
};
struct BLit : Kind {
  bool named; Src s;
  explicit BLit(bool n) : named(n) { Set(0, {0}); }
  void Set(int, const Bytes& b) override {
    if (b[0]) s.reset(named ? new BoolLiteralOperand<true>("alias") : new BoolLiteralOperand<true>());
    else s.reset(named ? new BoolLiteralOperand<false>("alias") : new BoolLiteralOperand<false>());
    if (b[0] ? !BoolLiteralPredicateOperand<true>().Value() : BoolLiteralPredicateOperand<false>().Value()) s.reset(new BoolLiteralOperand<false>("predicate wrong"));
  }
  SourceOperandInterface* src() override { return s.get(); }
};
struct Wrap : Kind {
  WrapperSourceOperand<Wrapped> s{&wrapped, {1}};
  void Set(int, const Bytes&) override {}
  SourceOperandInterface* src() override { return &s; }
};

template <typename T, typename R>
struct RegK : Kind {
  bool named; St st; std::unique_ptr<R> r; Src s; Dst d;
  explicit RegK(bool n) : named(n) {
    r = std::make_unique<R>(&st, "R7");
    s.reset(n ? r->CreateSourceOperand("alias") : r->CreateSourceOperand());
    d.reset(n ? r->CreateDestinationOperand(0, "alias") : r->CreateDestinationOperand(0));
  }
  void Set(int i, const Bytes& b) override {
    DataBuffer* db = d->CopyDataBuffer();
    db->template SetSubmit<T>(i, Make<T>(b));
  }
  SourceOperandInterface* src() override { return s.get(); }
  void Describe(vh::Out& o) override {
    Kind::Describe(o);
    o.s(r->name()).i(r->element_size()).i(r->size()).list(d->shape()).s(d->AsString());
  }
};
template <typename T, typename R, int N>
struct FifoK : Kind {
  bool named; St st; std::unique_ptr<R> r; Src s; Dst d; std::vector<T> e;
  explicit FifoK(bool n) : named(n), e(N, 0) {
    r = std::make_unique<R>(&st, "R7", 2);
    s.reset(n ? r->CreateSourceOperand("alias") : r->CreateSourceOperand());
    d.reset(n ? r->CreateDestinationOperand(0, "alias") : r->CreateDestinationOperand(0));
    Push();
  }
  void Push() {
    DataBuffer* db = d->AllocateDataBuffer();
    db->template SetSubmit<T>(absl::MakeConstSpan(e));
  }
  void Set(int i, const Bytes& b) override {
    e[i] = Make<T>(b);
    Push();
    r->Pop();
  }
  SourceOperandInterface* src() override { return s.get(); }
  void Describe(vh::Out& o) override {
    Kind::Describe(o);
    o.s(r->name()).i(r->element_size()).i(r->size()).list(d->shape()).s(d->AsString());
  }
};
template <typename T>
struct SregK : Kind {
  bool named; St st; std::unique_ptr<StatusRegister<T>> r; Src s;
  explicit SregK(bool n) : named(n) {
    r = std::make_unique<StatusRegister<T>>(&st, "R7");
    s.reset(n ? r->CreateSourceOperand("alias") : r->CreateSourceOperand());
  }
  void Set(int, const Bytes& b) override {
    for (size_t k = 0; k < 8 * sizeof(T); k++) {
      bool v = (b[k / 8] >> (k % 8)) & 1;
      r->SetEvaluateFunction(k, [v]() { return v; });
    }
  }
  SourceOperandInterface* src() override { return s.get(); }
  void Describe(vh::Out& o) override {
    Kind::Describe(o);
    o.s(r->name()).i(r->element_size()).i(r->size());
  }
  void Mask(const Bytes& m, vh::Out& o) override { Put(o, r->Read(Make<T>(m))); }
};

template <typename T>
Kind* New(const std::string& k, bool n) {
  if (k == "imm") return new Imm<T>(0, n);
  if (k == "immv") return new Imm<T>(1, n);
  if (k == "vimm") return new Imm<T>(2, n);
  if (k == "reg") return new RegK<T, Register<T>>(n);
  if (k == "vreg") return new RegK<T, VectorRegister<T, 4>>(n);
  if (k == "mreg") return new RegK<T, MatrixRegister<T, 2, 3>>(n);
  if constexpr (!std::is_same_v<T, bool>) {
    if (k == "fifo") return new FifoK<T, Fifo<T>, 1>(n);
    if (k == "vfifo") return new FifoK<T, VectorFifo<T, 4>, 4>(n);
    if (k == "sreg") return new SregK<T>(n);
  }
  if (k == "lit") return new Lit(n, false);
  if (k == "litv") return new Lit(n, true);
  if (k == "blit") return new BLit(n);
  if (k == "wrap") return new Wrap();
  exit(79);
}

int main() {
  std::unique_ptr<Kind> k;
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) {
         bool n = vh::I(a[3]);
         const auto& t = a[2];
         k.reset();
         Kind* p = nullptr;
         if (t == "i8") p = New<int8_t>(a[1], n);
         if (t == "u8") p = New<uint8_t>(a[1], n);
         if (t == "i16") p = New<int16_t>(a[1], n);
         if (t == "u16") p = New<uint16_t>(a[1], n);
         if (t == "i32") p = New<int32_t>(a[1], n);
         if (t == "u32") p = New<uint32_t>(a[1], n);
         if (t == "i64") p = New<int64_t>(a[1], n);
         if (t == "u64") p = New<uint64_t>(a[1], n);
         if (t == "b") p = New<bool>(a[1], n);
         k.reset(p);
         k->Describe(o);
       }},
      {"set", [&](const vh::Args& a, vh::Out& o) {
         int i = vh::I(a[1]);
         k->Set(i, vh::L(a[2]));
         Reading(o, k->src(), i);
       }},
      {"read", [&](const vh::Args& a, vh::Out& o) { Reading(o, k->src(), vh::I(a[1])); }},
      {"mask", [&](const vh::Args& a, vh::Out& o) { k->Mask(vh::L(a[1]), o); }},
  });
}
