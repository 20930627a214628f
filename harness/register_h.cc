// Registers, control/reserved/status registers, null operands and ArchState.
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;

struct St : ArchState {
  St() : ArchState("st") {}
};

struct Sys {
  virtual ~Sys() = default;
  virtual void Handle(const vh::Args& a, vh::Out& o) = 0;
};

// How a pair (lo, hi) is laid out in a buffer.
template <typename E, int N>
struct Fmt {
  static int bytes() { return sizeof(E) * (N == 0 ? 1 : N); }
  static void put(DataBuffer* db, int lo, int hi) {
    auto* p = static_cast<uint8_t*>(db->raw_ptr());
    int n = bytes();
    for (int i = 0; i < n; i++) p[i] = i < n / 2 ? lo : hi;
  }
  static void putlo(DataBuffer* db, int lo) {
    auto* p = static_cast<uint8_t*>(db->raw_ptr());
    for (int i = 0; i < bytes() / 2; i++) p[i] = lo;
  }
  static std::pair<int, int> get(DataBuffer* db) {
    int n = bytes();
    if (db->size<uint8_t>() != n) return {-2, -2};
    auto* p = static_cast<uint8_t*>(db->raw_ptr());
    int lo = p[0], hi = p[n - 1];
    for (int i = 0; i < n; i++)
      if (p[i] != (i < n / 2 ? lo : hi)) (i < n / 2 ? lo : hi) = -1;
    return {lo, hi};
  }
};

template <typename E, int N, typename Reg, typename ResReg, typename CtlReg>
struct SysT : Sys {
  using F = Fmt<E, N>;
  std::vector<std::pair<int, int>> cbs;
  std::vector<int> fired;
  int nfn = 1;
  std::unique_ptr<St> st;
  std::unique_ptr<SimpleResourcePool> pool;
  SimpleResource* res;
  Reg *a, *b;
  ResReg* r;
  std::unique_ptr<ControlRegister<E>> c;
  std::unique_ptr<StatusRegister<uint16_t>> sr;
  std::unique_ptr<DestinationOperandInterface> devnull;
  DataBufferDelayLine* line2;
  DataBuffer* slot[3] = {nullptr, nullptr, nullptr};
  RegisterBase* reg(int k) {
    return k == 0 ? (RegisterBase*)a : k == 1 ? (RegisterBase*)b : k == 2 ? (RegisterBase*)r : (RegisterBase*)c.get();
  }
  SysT() {
    st = std::make_unique<St>();
    pool = std::make_unique<SimpleResourcePool>("pool", 8);
    res = pool->GetOrAddResource("r");
    a = st->template AddRegister<Reg>("a");
    b = st->template AddRegister<Reg>("b");
    r = st->template AddRegister<ResReg>("r", res);
    c = std::make_unique<ControlRegister<E>>(st.get(), "c", [this](ControlRegisterBase* self, DataBuffer* db) {
      auto v = Fmt<E, 0>::get(db);
      cbs.push_back(v);
      if (v.first & 1) self->RegisterBase::SetDataBuffer(db);
    });
    sr = std::make_unique<StatusRegister<uint16_t>>(st.get(), "s");
    devnull = std::make_unique<DevNullOperand<E>>(st.get(), std::vector<int>{N == 0 ? 1 : N});
    line2 = st->template CreateAndAddDelayLine<DataBufferDelayLine>(4);
  }
  ~SysT() override {
    for (auto*& s : slot) if (s) { s->DecRef(); s = nullptr; }
    for (int i = 0; i < 700 && !(st->data_buffer_delay_line()->IsEmpty() && line2->IsEmpty()); i++)
      st->AdvanceDelayLines();
    c.reset();
    sr.reset();
  }
  std::pair<int, int> Get(int k, DataBuffer* db) { return k == 3 ? Fmt<E, 0>::get(db) : F::get(db); }
  std::unique_ptr<DestinationOperandInterface> Dest(const std::string& d, int lat, int ln) {
    DataBufferDelayLine* l = ln == 2 ? line2 : nullptr;
    auto mk = [&](auto* rg) -> DestinationOperandInterface* {
      if (l) return new RegisterDestinationOperand<E>(rg, lat, l);
      return lat % 2 ? rg->CreateDestinationOperand(lat) : rg->CreateDestinationOperand(lat, "nm");
    };
    DestinationOperandInterface* op = nullptr;
    if (d == "a") op = mk(a);
    if (d == "b") op = mk(b);
    if (d == "r") op = mk(r);
    if (d == "c") op = mk(c.get());
    return std::unique_ptr<DestinationOperandInterface>(op);
  }
  void InitFor(DataBuffer* db, const std::string& d, int lat, int ln) {
    if (d == "s") {
      db->set_destination(sr.get());
      db->set_latency(lat);
      db->set_delay_line(ln == 2 ? line2 : st->data_buffer_delay_line());
    } else if (d == "n") {
      devnull->InitializeDataBuffer(db);
    } else {
      Dest(d, lat, ln)->InitializeDataBuffer(db);
    }
  }
  // All destinations but "c" have the same size; "c" is always scalar.
  void Obs(vh::Out& o) {
    o.open();
    for (int k = 0; k < 4; k++) {
      auto* db = reg(k)->data_buffer();
      auto v = Get(k, db);
      o.open().i(v.first).i(v.second).i(db->ref_count()).close();
    }
    o.close().open();
    for (int k = 1; k <= 2; k++) {
      o.open();
      if (slot[k]) {
        bool small = slot[k]->template size<uint8_t>() != F::bytes();
        auto v = small ? Fmt<E, 0>::get(slot[k]) : F::get(slot[k]);
        o.i(v.first).i(v.second).i(slot[k]->ref_count());
      }
      o.close();
    }
    o.close().b(res->IsFree()).open();
    for (auto& v : cbs) o.open().i(v.first).i(v.second).close();
    o.close().list(fired).i(st->cycle()).b(st->data_buffer_delay_line()->IsEmpty());
  }
  template <typename FF>
  void Fill(DataBuffer* db, int v) { FF::put(db, v, v); }
  void Handle(const vh::Args& x, vh::Out& o) override {
    cbs.clear();
    fired.clear();
    const std::string& op = x[0];
    if (op == "adv") {
      st->AdvanceDelayLines();
    } else if (op == "w") {
      std::string d = x[1];
      int lat = vh::I(x[2]), v = vh::I(x[3]), how = vh::I(x[4]), k = vh::I(x[5]), ln = vh::I(x[6]);
      auto dst = Dest(d, lat, ln);
      DestinationOperandInterface* op = dst ? dst.get() : d == "n" ? devnull.get() : nullptr;
      DataBuffer* db;
      bool copy = how == 4;
      if (op) db = copy ? op->CopyDataBuffer() : op->AllocateDataBuffer();
      else { db = st->db_factory()->Allocate(F::bytes()); }
      if (!op) InitFor(db, d, lat, ln);
      if (op && op->latency() != (d == "n" ? 0 : lat)) { o.s("bad latency"); return; }
      if (k) { db->IncRef(); slot[k] = db; }
      bool ctl = d == "c";
      if (copy && op && d != "n") { if (ctl) Fmt<E, 0>::putlo(db, v); else F::putlo(db, v); }
      else if (ctl) Fill<Fmt<E, 0>>(db, v);
      else Fill<F>(db, v);
      E* p = static_cast<E*>(db->raw_ptr());
      int n = db->template size<E>();
      if (how == 1) { E e = p[n - 1]; p[n - 1] = 0; db->template SetSubmit<E>(n - 1, e); }
      else if (how == 2) {
        std::vector<E> vec(p, p + n);
        for (int i = 0; i < n; i++) p[i] = 0;
        db->template SetSubmit<E>(absl::MakeConstSpan(vec));
      } else if (how == 3) { db->set_latency(lat + 3); db->Submit(lat); }
      else db->Submit();
    } else if (op == "resub") {
      DataBuffer* db = slot[vh::I(x[1])];
      db->IncRef();
      InitFor(db, x[2], vh::I(x[3]), vh::I(x[4]));
      db->Submit();
    } else if (op == "drop") {
      DataBuffer*& db = slot[vh::I(x[1])];
      auto* q = db;
      db = nullptr;
      q->DecRef();
    } else if (op == "poke") {
      DataBuffer* db = slot[vh::I(x[1])];
      int v = vh::I(x[2]);
      if (db->template size<uint8_t>() != F::bytes()) Fill<Fmt<E, 0>>(db, v);
      else Fill<F>(db, v);
    } else if (op == "self") {
      RegisterBase* rg = x[1] == "a" ? (RegisterBase*)a : x[1] == "b" ? (RegisterBase*)b : (RegisterBase*)r;
      rg->SetDataBuffer(rg->data_buffer());
    } else if (op == "acq") {
      res->Acquire();
    } else if (op == "fn") {
      int id = nfn++;
      st->function_delay_line()->Add(vh::I(x[1]), [this, id]() { fired.push_back(id); });
    } else {
      fprintf(stderr, "bad op\n");
      exit(77);
    }
    Obs(o);
  }
};

template <typename E>
using Sc = SysT<E, 0, Register<E>, ReservedRegister<E>, ControlRegister<E>>;

int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "u16";
  std::unique_ptr<Sys> sys;
  auto handle = [&](const vh::Args& a, vh::Out& o) { sys->Handle(a, o); };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"adv", "w", "resub", "drop", "poke", "self", "acq", "fn"}) h[n] = handle;
  h["reset"] = [&](const vh::Args& a, vh::Out& o) {
    sys.reset();
    if (m == "u16") { auto s = new Sc<uint16_t>(); sys.reset(s); s->Obs(o); }
    else if (m == "u32") { auto s = new Sc<uint32_t>(); sys.reset(s); s->Obs(o); }
    else if (m == "u64") { auto s = new Sc<uint64_t>(); sys.reset(s); s->Obs(o); }
    else if (m == "v4") {
      auto s = new SysT<uint32_t, 4, VectorRegister<uint32_t, 4>, ReservedVectorRegister<uint32_t, 4>, ControlRegister<uint32_t>>();
      sys.reset(s); s->Obs(o);
    } else if (m == "m6") {
      auto s = new SysT<uint16_t, 6, MatrixRegister<uint16_t, 2, 3>, ReservedMatrixRegister<uint16_t, 2, 3>, ControlRegister<uint16_t>>();
      sys.reset(s); s->Obs(o);
    }
  };
  return vh::Main(h);
}
