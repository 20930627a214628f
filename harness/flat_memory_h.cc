// FlatMemory and FlatDemandMemory: spec/FlatMemories.tla.
#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
using namespace vm;
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::FlatMemory;

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<MemoryInterface> mi;
  std::string kind;
  long long size = 0, unit = 1;
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const Args& a, Out& o) {
    if (m) m->Clean();
    mi.reset();
    m = std::make_unique<Mem>();
    kind = a[1];
    unit = I(a[2]);
    m->origin = kOrigins[I(a[3])];
    size = I(a[4]);
    int fill = I(a[5]);
    if (kind == "flat") {
      if (m->origin == 0 && fill == 0) mi = std::make_unique<FlatMemory>(size, unit, fill);
      else mi = std::make_unique<FlatMemory>(size, m->origin, unit, fill);
    } else if (size == 1000000000) {  // "everything from the origin"
      if (m->origin == 0) mi = std::make_unique<FlatDemandMemory>();
      else mi = std::make_unique<FlatDemandMemory>(m->origin);
    } else if (unit == 1 && fill == 0) {
      mi = std::make_unique<FlatDemandMemory>(size, m->origin);
    } else {
      mi = std::make_unique<FlatDemandMemory>(size, m->origin, unit, fill);
    }
    m->mem = mi.get();
    m->Emit(o);
  };
  for (const char* n : {"st", "ld", "vst", "vld", "adv"})
    h[n] = [&](const Args& a, Out& o) {
      if (a[0] == "st" || a[0] == "ld") {
        long long ad = I(a[1]), un = (I(a[2]) + unit - 1) / unit;
        if ((ad < 0 || ad + un > size) && (kind == "flat" || a[0] == "st")) {
          o.s(Child([&] { m->Access(a); }));
          return;
        }
      }
      m->Access(a);
      m->Emit(o);
    };
  h["clear"] = [&](const Args&, Out& o) {
    static_cast<FlatDemandMemory*>(mi.get())->Clear();
    m->data.clear();
    m->tags.clear();
    m->log.clear();
    m->Emit(o);
  };
  int rc = vh::Main(h);
  if (m) m->Clean();
  mi.reset();
  m.reset();
  return rc;
}
