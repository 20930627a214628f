// AtomicMemory and AtomicTaggedMemory: spec/AtomicMemories.tla.
#include "mem_common.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace vm;
using namespace mpact::sim::util;

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<FlatDemandMemory> flat;
  std::unique_ptr<TaggedFlatDemandMemory> tag;
  std::unique_ptr<AtomicMemory> am;
  std::unique_ptr<AtomicTaggedMemory> at;
  AtomicMemoryOpInterface* amo = nullptr;
  using Op = AtomicMemoryOpInterface::Operation;
  std::map<std::string, Op> ops = {{"ll", Op::kLoadLinked}, {"sc", Op::kStoreConditional}, {"swap", Op::kAtomicSwap},
      {"add", Op::kAtomicAdd}, {"sub", Op::kAtomicSub}, {"and", Op::kAtomicAnd}, {"or", Op::kAtomicOr}, {"xor", Op::kAtomicXor},
      {"max", Op::kAtomicMax}, {"maxu", Op::kAtomicMaxu}, {"min", Op::kAtomicMin}, {"minu", Op::kAtomicMinu}};
  auto clean = [&] {
    if (m) m->Clean();
    am.reset(); at.reset(); flat.reset(); tag.reset(); m.reset();
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const Args& a, Out& o) {
    clean();
    m = std::make_unique<Mem>();
    m->origin = kOrigins[I(a[2])];
    m->gran = I(a[4]);
    if (a[1] == "atomic") {
      flat = std::make_unique<FlatDemandMemory>(4096, m->origin, 1, I(a[3]));
      am = std::make_unique<AtomicMemory>(flat.get());
      m->mem = am.get();
      amo = am.get();
    } else {
      tag = std::make_unique<TaggedFlatDemandMemory>(4096, m->origin, 1, I(a[3]), m->gran);
      at = std::make_unique<AtomicTaggedMemory>(tag.get());
      m->mem = m->tmem = at.get();
      amo = at.get();
    }
    m->Emit(o);
  };
  for (const char* n : {"st", "ld", "vst", "vld", "adv", "tst", "tld", "tonly"})
    h[n] = [&](const Args& a, Out& o) {
      m->Access(a);
      m->Emit(o);
    };
  h["amo"] = [&](const Args& a, Out& o) {
    m->log.clear();
    auto* db = m->List(L(a[3]));
    bool ok = false;
    bool ran = false;
    int k = I(a[4]);
    // A refused operation never executes its instruction: hold the buffer ourselves.
    db->IncRef();
    m->Load(k, 5, db, nullptr, [&](Instruction* i, ReferenceCount* c) {
      ok = amo->PerformMemoryOp(m->origin + I(a[2]), ops.at(a[1]), db, i, c).ok();
    });
    ran = !m->log.empty();
    if (k && !ran && live_inst == 0) db->DecRef();  // never executed: the instruction's reference
    db->DecRef();
    o.b(ok).list(m->data).open();
    for (auto& d : m->log) o.open().i(d.k).list(d.data).list(d.tags).close();
    o.close().i(live_inst).i(live_ctx);
  };
  int rc = vh::Main(h);
  clean();
  return rc;
}
