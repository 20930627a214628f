// FIFOs: plain, with notification, sharing tokens.
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/program_error.h"
#include "mpact/sim/generic/token_fifo.h"
using namespace mpact::sim::generic;

struct St : ArchState {
  St() : ArchState("st") {}
};

struct Sys {
  std::unique_ptr<FifoTokenStore> tokens;
  std::unique_ptr<ProgramErrorController> pec[2];
  std::unique_ptr<St> st;
  std::unique_ptr<FifoBase> f[2];
  std::unique_ptr<SourceOperandInterface> src[2];
  std::function<DestinationOperandInterface*(int)> mk[2];
  DataBuffer* db[7] = {};
  std::vector<int> notes;

  Sys(const std::string& kind, int cap, int pool) {
    if (kind == "token") tokens = std::make_unique<FifoTokenStore>(pool);
    st = std::make_unique<St>();
    for (int k = 0; k < 2; k++) {
      std::string nm = k ? "g" : "f";
      if (kind == "token") {
        auto p = std::make_unique<TokenFifo<uint32_t>>(st.get(), nm, cap, tokens.get());
        src[k].reset(p->CreateSourceOperand());
        mk[k] = [q = p.get()](int l) { return q->CreateDestinationOperand(l); };
        f[k] = std::move(p);
      } else if (kind == "notify") {
        auto p = std::make_unique<FifoWithNotify<uint32_t>>(st.get(), nm, cap);
        src[k].reset(p->CreateSourceOperand());
        mk[k] = [q = p.get()](int l) { return q->CreateDestinationOperand(l); };
        p->SetOnNotEmpty([this, k](FifoWithNotifyBase* b) { notes.push_back(b == f[k].get() ? k + 1 : 99); });
        p->SetOnEmpty([this, k](FifoWithNotifyBase* b) { notes.push_back(b == f[k].get() ? -k - 1 : -99); });
        f[k] = std::move(p);
      } else {
        auto p = std::make_unique<Fifo<uint32_t>>(st.get(), nm, cap);
        src[k].reset(p->CreateSourceOperand());
        mk[k] = [q = p.get()](int l) { return q->CreateDestinationOperand(l); };
        f[k] = std::move(p);
      }
      pec[k] = std::make_unique<ProgramErrorController>("c");
      pec[k]->AddProgramErrorName("o");
      pec[k]->AddProgramErrorName("u");
      auto o = pec[k]->GetProgramError("o");
      auto u = pec[k]->GetProgramError("u");
      f[k]->SetOverflowProgramError(&o);
      f[k]->SetUnderflowProgramError(&u);
    }
    for (int i = 1; i <= 6; i++) {
      db[i] = st->db_factory()->Allocate<uint32_t>(1);
      db[i]->Set<uint32_t>(0, i);
    }
  }
  ~Sys() {
    while (!st->data_buffer_delay_line()->IsEmpty()) st->AdvanceDelayLines();
    // A fifo that goes away drops its references to what is still in it.
    for (int k = 0; k < 2; k++) f[k].reset();
    for (int i = 1; i <= 6; i++) {
      if (db[i]->ref_count() != 1) {
        fprintf(stderr, "a destroyed fifo kept a reference to its data\n");
        abort();
      }
      db[i]->DecRef();
    }
  }
  void Obs(vh::Out& o) {
    o.open();
    for (int k = 0; k < 2; k++)
      o.open().i(f[k]->Available()).i(f[k]->Reserved()).b(f[k]->IsFull()).b(f[k]->IsEmpty())
          .b(f[k]->IsOverSubscribed()).i(f[k]->Capacity()).close();
    o.close();
    o.i(tokens ? tokens->available() : 0);
    o.open();
    for (int i = 1; i <= 6; i++) o.i(db[i]->ref_count() - 1);
    o.close();
  }
  // Reads the front value through one of the source operand's accessors, in turn.
  long Read(int k) {
    static int turn = 0;
    auto* s = src[k].get();
    switch (turn++ % 9) {
      case 0: return s->AsUint32(0);
      case 1: return s->AsInt32(0);
      case 2: return s->AsUint64(0);
      case 3: return s->AsInt64(0);
      case 4: return s->AsUint16(0);
      case 5: return s->AsInt16(0);
      case 6: return s->AsUint8(0);
      case 7: return s->AsInt8(0);
      default: return s->AsBool(0) ? (f[k]->Available() ? f[k]->Front()->Get<uint32_t>(0) : -1) : 0;
    }
  }
  void Handle(const vh::Args& a, vh::Out& o) {
    long ret = 0;
    notes.clear();
    for (auto& p : pec) p->ClearAll();
    int k = a.size() > 1 ? vh::I(a[1]) - 1 : 0;
    if (a[0] == "push") ret = f[k]->Push(db[vh::I(a[2])]);
    else if (a[0] == "pop") f[k]->Pop();
    else if (a[0] == "front") {
      auto* d = f[k]->Front();
      if (d)
        for (int i = 1; i <= 6; i++)
          if (db[i] == d) ret = i;
      if (d && !ret) ret = -1;
    } else if (a[0] == "read") ret = Read(k);
    else if (a[0] == "reserve") f[k]->Reserve(vh::I(a[2]));
    else if (a[0] == "submit") {
      auto* d = db[vh::I(a[2])];
      std::unique_ptr<DestinationOperandInterface> dst(mk[k](vh::I(a[3])));
      d->IncRef();
      dst->InitializeDataBuffer(d);
      d->Submit();
    } else if (a[0] == "advance") st->AdvanceDelayLines();
    else if (a[0] == "depth") {
      mpact::sim::proto::ComponentData cd;
      cd.set_name(k ? "g" : "f");
      auto* e = cd.add_configuration();
      e->set_name("depth");
      e->set_uint64_value(vh::I(a[2]));
      ret = f[k]->Import(cd).ok();
    }
    long of = 0, uf = 0;
    for (auto& p : pec)
      for (auto& n : p->GetUnmaskedErrorNames()) {
        long c = p->GetErrorMessages(n).size();
        (n == "o" ? of : n == "u" ? uf : ret = -7) += c;
      }
    o.i(ret).i(of).i(uf).list(notes);
    Obs(o);
  }
};

int main() {
  std::unique_ptr<Sys> sys;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      sys.reset();
      sys = std::make_unique<Sys>(a[1], vh::I(a[2]), vh::I(a[3]));
      sys->Obs(o);
      return;
    }
    sys->Handle(a, o);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "push", "pop", "front", "read", "reserve", "submit", "advance", "depth"}) h[n] = gen;
  int rc = vh::Main(h);
  return rc;
}
