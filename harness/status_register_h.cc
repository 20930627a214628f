// Status registers of all widths.
#include <algorithm>
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;

struct St : ArchState {
  St() : ArchState("st") {}
};
struct Base {
  virtual ~Base() = default;
  virtual void Handle(const vh::Args& a, vh::Out& o) = 0;
};
template <typename T>
struct Sys : Base {
  St st;
  StatusRegister<T> reg{&st, "s"};
  std::unique_ptr<SourceOperandInterface> op{reg.CreateSourceOperand()};
  bool conds[16] = {};
  std::vector<int> calls;
  template <typename U>
  void Put(vh::Out& o, U v) {
    o.open();
    if constexpr (std::is_same_v<U, bool>) {
      if (v) o.i(0);
    } else {
      for (int i = 0; i < (int)sizeof(U) * 8; i++)
        if ((uint64_t(v) >> i) & 1) o.i(i);
    }
    o.close();
    std::sort(calls.begin(), calls.end());
    o.list(calls);
  }
  void Handle(const vh::Args& a, vh::Out& o) override {
    calls.clear();
    if (a[0] == "wire") {
      int i = vh::I(a[1]), c = vh::I(a[2]);
      reg.SetEvaluateFunction(i, [this, i, c]() {
        calls.push_back(i);
        return conds[c];
      });
    } else if (a[0] == "cond") {
      conds[vh::I(a[1])] ^= true;
    } else if (a[0] == "read") {
      Put(o, reg.Read());
    } else if (a[0] == "readm") {
      uint64_t m = 0;
      if (a[1] != "[]")
        for (auto i : vh::L(a[1])) m |= 1ULL << i;
      Put(o, reg.Read(static_cast<T>(m)));
    } else if (a[0] == "as") {
      bool sg = std::is_signed_v<T>;
      switch (vh::I(a[1])) {
        case 0: Put(o, op->AsBool(0)); break;
        case 8: sg ? Put(o, op->AsInt8(0)) : Put(o, op->AsUint8(0)); break;
        case 16: sg ? Put(o, op->AsInt16(0)) : Put(o, op->AsUint16(0)); break;
        case 32: sg ? Put(o, op->AsInt32(0)) : Put(o, op->AsUint32(0)); break;
        case 64: sg ? Put(o, op->AsInt64(0)) : Put(o, op->AsUint64(0)); break;
      }
    } else if (a[0] == "write") {
      auto* db = st.db_factory()->template Allocate<T>(1);
      db->template Set<T>(0, static_cast<T>(-1));
      reg.SetDataBuffer(db);
      o.i(db->ref_count());
      db->DecRef();
    }
  }
};

int main() {
  std::unique_ptr<Base> sys;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      bool g = vh::I(a[2]);
      switch (vh::I(a[1])) {
        case 8: g ? (Base*)(sys = std::make_unique<Sys<int8_t>>()).get() : (sys = std::make_unique<Sys<uint8_t>>()).get(); break;
        case 16: g ? (Base*)(sys = std::make_unique<Sys<int16_t>>()).get() : (sys = std::make_unique<Sys<uint16_t>>()).get(); break;
        case 32: g ? (Base*)(sys = std::make_unique<Sys<int32_t>>()).get() : (sys = std::make_unique<Sys<uint32_t>>()).get(); break;
        default: g ? (Base*)(sys = std::make_unique<Sys<int64_t>>()).get() : (sys = std::make_unique<Sys<uint64_t>>()).get(); break;
      }
      return;
    }
    sys->Handle(a, o);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "wire", "cond", "read", "readm", "as", "write"}) h[n] = gen;
  return vh::Main(h);
}
