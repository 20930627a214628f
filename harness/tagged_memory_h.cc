// TaggedFlatDemandMemory and TaggedToUntaggedMemoryTransactor: spec/TaggedMemories.tla.
#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"
using namespace vm;
using namespace mpact::sim::util;

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<FlatDemandMemory> flat;
  std::unique_ptr<TaggedMemoryInterface> ti;
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const Args& a, Out& o) {
    if (m) m->Clean();
    ti.reset();
    flat.reset();
    m = std::make_unique<Mem>();
    long long unit = I(a[2]), lo = I(a[4]), size = I(a[5]), fill = I(a[6]), gran = I(a[7]);
    m->origin = kOrigins[I(a[3])];
    m->gran = gran;
    if (a[1] == "trans") {
      flat = std::make_unique<FlatDemandMemory>(size - lo, m->origin + lo, unit, fill);
      ti = std::make_unique<TaggedToUntaggedMemoryTransactor>(flat.get());
    } else if (size == 1000000000) {
      if (m->origin + lo == 0) ti = std::make_unique<TaggedFlatDemandMemory>(gran);
      else ti = std::make_unique<TaggedFlatDemandMemory>(m->origin + lo, gran);
    } else if (unit == 1 && fill == 0) {
      ti = std::make_unique<TaggedFlatDemandMemory>(size - lo, m->origin + lo, gran);
    } else {
      ti = std::make_unique<TaggedFlatDemandMemory>(size - lo, m->origin + lo, unit, fill, gran);
    }
    m->mem = m->tmem = ti.get();
    m->Emit(o);
  };
  for (const char* n : {"st", "ld", "vst", "vld", "adv", "tst", "tld", "tonly"})
    h[n] = [&](const Args& a, Out& o) {
      m->Access(a);
      m->Emit(o);
    };
  int rc = vh::Main(h);
  if (m) m->Clean();
  ti.reset();
  m.reset();
  return rc;
}
