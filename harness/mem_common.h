// Memory accesses shared by the memory harnesses: see spec/MemBytes.tla.
#ifndef VERIF_MEM_COMMON_H_
#define VERIF_MEM_COMMON_H_
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"

namespace vm {
using namespace mpact::sim::generic;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::TaggedMemoryInterface;
using vh::Args;
using vh::I;
using vh::L;
using vh::Out;

struct Arch : ArchState {
  Arch() : ArchState("a", nullptr) {}
};
inline int live_inst = 0, live_ctx = 0;
struct Inst : Instruction {
  explicit Inst(ArchState* a) : Instruction(a) { live_inst++; }
  ~Inst() override { live_inst--; }
};
struct Ctx : ReferenceCount {
  Ctx() { live_ctx++; }
  ~Ctx() override { live_ctx--; }
};
struct Done {
  int k;
  std::vector<int> data, tags;
};
inline const uint64_t kOrigins[] = {0,
                                    0x3ff8,                  // 8 before a block of a demand memory
                                    0x4000 - 3,
                                    0x0000'0001'0000'0000ULL - 5,
                                    0xffff'ffff'ffff'0000ULL - 7,
                                    0x7fff'ffff'ffff'fff8ULL,
                                    0x1000,
                                    0xffff'ffff'ffff'ffe0ULL,
                                    0x1fff0,  // 16 before a block of tags of 8 byte granules
                                    0x3ffe0};

// One instance per behaviour.
struct Mem {
  std::unique_ptr<Arch> arch = std::make_unique<Arch>();
  DataBufferFactory* f = nullptr;
  MemoryInterface* mem = nullptr;
  TaggedMemoryInterface* tmem = nullptr;
  uint64_t origin = 0;
  int gran = 0;
  std::vector<Done> log;
  std::vector<int> data, tags;  // what a load left in its buffers
  bool lat_ok = true;           // and whether their latency is unchanged
  Mem() { f = arch->db_factory(); }

  static std::vector<int> Bytes(DataBuffer* db) {
    std::vector<int> r;
    if (db)
      for (int i = 0; i < db->size<uint8_t>(); i++) r.push_back(db->Get<uint8_t>(i));
    return r;
  }
  DataBuffer* Blank(int n) {
    auto* db = f->Allocate<uint8_t>(n);
    memset(db->raw_ptr(), 238, n);
    db->set_latency(0);
    return db;
  }
  DataBuffer* Data(int n, long long v) {
    auto* db = f->Allocate<uint8_t>(n);
    for (int i = 0; i < n; i++) db->Set<uint8_t>(i, (v + i) & 0xff);
    return db;
  }
  DataBuffer* List(const std::vector<long long>& l) {
    auto* db = f->Allocate<uint8_t>(l.size());
    for (size_t i = 0; i < l.size(); i++) db->Set<uint8_t>(i, l[i]);
    return db;
  }
  DataBuffer* Mask(const std::vector<long long>& l) {
    auto* db = f->Allocate<bool>(l.size());
    for (size_t i = 0; i < l.size(); i++) db->Set<bool>(i, l[i] != 0);
    return db;
  }
  DataBuffer* Addr(const std::vector<long long>& l) {
    auto* db = f->Allocate<uint64_t>(l.size());
    for (size_t i = 0; i < l.size(); i++) db->Set<uint64_t>(i, origin + l[i]);
    return db;
  }
  // Runs load(inst, ctx) for instruction k; the buffers are released when it has executed.
  template <typename F>
  void Load(int k, int lat, DataBuffer* db, DataBuffer* tg, F load) {
    if (db) db->set_latency(lat);
    if (tg) tg->set_latency(lat);
    Inst* inst = nullptr;
    Ctx* ctx = k >= 10 ? new Ctx : nullptr;
    if (k) {
      inst = new Inst(arch.get());
      if (db) db->IncRef();
      if (tg) tg->IncRef();
      inst->set_semantic_function([this, k, db, tg, inst, ctx](Instruction* i) {
        bool ok = i == inst && i->context() == ctx;
        log.push_back({ok ? k : -k, Bytes(db), Bytes(tg)});
        if (db) db->DecRef();
        if (tg) tg->DecRef();
      });
    }
    load(inst, ctx);
    lat_ok = (!db || db->latency() == lat) && (!tg || tg->latency() == lat);
    data = Bytes(db);
    tags = Bytes(tg);
    if (db) db->DecRef();
    if (tg) tg->DecRef();
    if (inst) inst->DecRef();  // memories keep what they still need
    if (ctx) ctx->DecRef();
  }
  bool Access(const Args& a) {
    data.clear();
    tags.clear();
    log.clear();
    const std::string& o = a[0];
    if (o == "st") {
      auto* db = Data(I(a[2]), I(a[3]));
      mem->Store(origin + I(a[1]), db);
      db->DecRef();
    } else if (o == "ld") {
      auto* db = Blank(I(a[2]));
      Load(I(a[4]), I(a[3]), db, nullptr, [&](Instruction* i, ReferenceCount* c) { mem->Load(origin + I(a[1]), db, i, c); });
    } else if (o == "vst") {
      auto as = L(a[1]), mk = L(a[2]);
      int el = I(a[3]);
      auto *ad = Addr(as), *md = Mask(mk), *db = Data(mk.size() * el, I(a[4]));
      mem->Store(ad, md, el, db);
      ad->DecRef(); md->DecRef(); db->DecRef();
    } else if (o == "vld") {
      auto as = L(a[1]), mk = L(a[2]);
      int el = I(a[3]);
      auto *ad = Addr(as), *md = Mask(mk), *db = Blank(mk.size() * el);
      Load(I(a[5]), I(a[4]), db, nullptr, [&](Instruction* i, ReferenceCount* c) { mem->Load(ad, md, el, db, i, c); });
      ad->DecRef(); md->DecRef();
    } else if (o == "tst") {
      auto ts = L(a[2]);
      auto *db = Data(ts.size() * gran, I(a[3])), *tg = List(ts);
      tmem->Store(origin + I(a[1]), db, tg);
      db->DecRef(); tg->DecRef();
    } else if (o == "tld" || o == "tonly") {
      int ng = I(a[2]);
      auto *db = o == "tld" ? Blank(ng * gran) : nullptr, *tg = Blank(ng);
      Load(I(a[4]), I(a[3]), db, tg, [&](Instruction* i, ReferenceCount* c) { tmem->Load(origin + I(a[1]), db, tg, i, c); });
    } else if (o == "adv") {
      arch->AdvanceDelayLines();
    } else {
      return false;
    }
    return true;
  }
  void Emit(Out& r) {
    r.list(data).list(tags).open();
    for (auto& d : log) r.open().i(d.k).list(d.data).list(d.tags).close();
    r.close().i(live_inst).i(live_ctx);
  }
  void Clean() {  // run off what is pending
    for (int i = 0; i < 64; i++) arch->AdvanceDelayLines();
    log.clear();
  }
};
// Runs fn in a child; true if it aborted.
template <typename F>
std::string Child(F fn) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, [](int) { _exit(42); });
    fn();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 42 ? "refused" : WEXITSTATUS(st) == 0 ? "performed" : "crashed";
  return WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL ? "refused" : "crashed";
}
}  // namespace vm
#endif
