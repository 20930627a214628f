// SingleInitiatorRouter and MemoryRouter: spec/Routers.tla.
#include "mem_common.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
using namespace vm;
using namespace mpact::sim::util;

struct Req {
  std::string req;
  uint64_t addr = 0;
  AtomicMemoryOpInterface::Operation op{};
  DataBuffer *ad = nullptr, *md = nullptr, *db = nullptr, *tg = nullptr;
  int el = 0;
  Instruction* inst = nullptr;
  ReferenceCount* ctx = nullptr;
} want;
struct Got {
  int t;
  std::string req;
  bool same;
};
std::vector<Got> got;

struct Target : TaggedMemoryInterface, AtomicMemoryOpInterface {
  int id;
  explicit Target(int i) : id(i) {}
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    got.push_back({id, "ld", a == want.addr && db == want.db && i == want.inst && c == want.ctx});
  }
  void Load(DataBuffer* ad, DataBuffer* md, int el, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    got.push_back({id, "vld", ad == want.ad && md == want.md && el == want.el && db == want.db && i == want.inst && c == want.ctx});
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* tg, Instruction* i, ReferenceCount* c) override {
    got.push_back({id, db ? "tld" : "tonly", a == want.addr && db == want.db && tg == want.tg && i == want.inst && c == want.ctx});
  }
  void Store(uint64_t a, DataBuffer* db) override { got.push_back({id, "st", a == want.addr && db == want.db}); }
  void Store(DataBuffer* ad, DataBuffer* md, int el, DataBuffer* db) override {
    got.push_back({id, "vst", ad == want.ad && md == want.md && el == want.el && db == want.db});
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* tg) override {
    got.push_back({id, "tst", a == want.addr && db == want.db && tg == want.tg});
  }
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    got.push_back({id, "amo", a == want.addr && op == want.op && db == want.db && i == want.inst && c == want.ctx});
    return absl::OkStatus();
  }
};

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<SingleInitiatorRouter> single;
  std::unique_ptr<MemoryRouter> multi;
  std::vector<std::unique_ptr<Target>> targets;
  for (int i = 0; i <= 6; i++) targets.push_back(std::make_unique<Target>(i));
  std::map<void*, int> ids;
  std::map<std::string, vh::Handler> h;
  int n = 0;
  auto end = [&](long long v) -> uint64_t { return v == -1000000 ? 0 : v == 1000000 ? ~0ull : m->origin + v; };
  auto nm = [](const std::string& p, const std::string& x) { return p + x; };
  auto ret = [&](Out& o, long long v) { o.i(v).open().close(); };
  h["reset"] = [&](const Args& a, Out& o) {
    single.reset();
    multi.reset();
    ids.clear();
    m = std::make_unique<Mem>();
    m->origin = kOrigins[I(a[2])];
    if (a[1] == "single") single = std::make_unique<SingleInitiatorRouter>("r");
    else multi = std::make_unique<MemoryRouter>();
    ret(o, 1);
  };
  h["add"] = [&](const Args& a, Out& o) {
    Target* t = targets[I(a[3])].get();
    uint64_t lo = end(I(a[4])), hi = end(I(a[5]));
    ret(o, a[2] == "m"   ? single->AddTarget<MemoryInterface>(t, lo, hi).ok()
           : a[2] == "t" ? single->AddTarget<TaggedMemoryInterface>(t, lo, hi).ok()
                         : single->AddTarget<AtomicMemoryOpInterface>(t, lo, hi).ok());
  };
  h["def"] = [&](const Args& a, Out& o) {
    Target* t = I(a[3]) ? targets[I(a[3])].get() : nullptr;
    ret(o, a[2] == "m"   ? single->AddDefaultTarget<MemoryInterface>(t).ok()
           : a[2] == "t" ? single->AddDefaultTarget<TaggedMemoryInterface>(t).ok()
                         : single->AddDefaultTarget<AtomicMemoryOpInterface>(t).ok());
  };
  h["init"] = [&](const Args& a, Out& o) {
    auto name = nm("init", a[2]);
    void* p = a[1] == "m"   ? dynamic_cast<void*>(multi->AddMemoryInitiator(name))
              : a[1] == "t" ? dynamic_cast<void*>(multi->AddTaggedInitiator(name))
                            : dynamic_cast<void*>(multi->AddAtomicInitiator(name));
    ret(o, ids.emplace(p, I(a[2])).first->second);
  };
  h["target"] = [&](const Args& a, Out& o) {
    Target* t = targets[I(a[2])].get();
    auto name = nm("mem", a[2]);
    ret(o, a[1] == "m"   ? multi->AddTarget(name, static_cast<MemoryInterface*>(t)).ok()
           : a[1] == "t" ? multi->AddTarget(name, static_cast<TaggedMemoryInterface*>(t)).ok()
                         : multi->AddTarget(name, static_cast<AtomicMemoryOpInterface*>(t)).ok());
  };
  h["map"] = [&](const Args& a, Out& o) {
    ret(o, multi->AddMapping(nm("init", a[1]), nm("mem", a[2]), end(I(a[3])), end(I(a[4]))).ok());
  };
  for (const char* op : {"ld", "st", "tld", "tst", "tonly", "amo", "vld", "vst"})
    h[op] = [&](const Args& a, Out& o) {
      TaggedMemoryInterface* ti = single.get();
      MemoryInterface* mi = single.get();
      AtomicMemoryOpInterface* ai = single.get();
      if (multi) {
        mi = multi->AddMemoryInitiator(nm("init", a[1]));
        ti = multi->AddTaggedInitiator(nm("init", a[1]));
        ai = multi->AddAtomicInitiator(nm("init", a[1]));
      }
      got.clear();
      want = Req();
      want.req = a[0];
      bool vec = a[0][0] == 'v';
      std::vector<long long> as = vec ? L(a[2]) : std::vector<long long>{I(a[2])};
      int size = vec ? I(a[4]) : I(a[3]);
      if (vec) {
        auto mk = L(a[3]);
        want.ad = m->Addr(as);
        want.md = m->Mask(mk);
        want.el = size;
        want.db = m->Blank(mk.size() * size);
      } else {
        want.addr = m->origin + as[0];
        if (a[0] == "tonly") want.tg = m->Blank(size);
        else want.db = m->Blank(size);
        if (a[0] == "tld" || a[0] == "tst") want.tg = m->Blank((size + 7) / 8);
      }
      Instruction* inst = nullptr;
      Ctx* ctx = nullptr;
      if (n++ % 3) {
        inst = want.inst = new Inst(m->arch.get());
        ctx = new Ctx;
        want.ctx = ctx;
      }
      want.op = static_cast<AtomicMemoryOpInterface::Operation>(n % 12);
      bool ok = true;
      if (a[0] == "ld") mi->Load(want.addr, want.db, want.inst, want.ctx);
      if (a[0] == "st") mi->Store(want.addr, want.db);
      if (a[0] == "vld") mi->Load(want.ad, want.md, size, want.db, want.inst, want.ctx);
      if (a[0] == "vst") mi->Store(want.ad, want.md, size, want.db);
      if (a[0] == "tld" || a[0] == "tonly") ti->Load(want.addr, want.db, want.tg, want.inst, want.ctx);
      if (a[0] == "tst") ti->Store(want.addr, want.db, want.tg);
      if (a[0] == "amo") ok = ai->PerformMemoryOp(want.addr, want.op, want.db, want.inst, want.ctx).ok();
      else ok = !got.empty();
      o.i(ok).open();
      for (auto& g : got) o.open().i(g.t).s(g.req).list(as).i(size).i(g.same).close();
      o.close();
      for (auto* d : {want.ad, want.md, want.db, want.tg})
        if (d) d->DecRef();
      if (inst) inst->DecRef();
      if (ctx) ctx->DecRef();
    };
  return vh::Main(h);
}
