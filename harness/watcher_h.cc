// MemoryWatcher and TaggedMemoryWatcher: spec/Watchers.tla.
#include <algorithm>

#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"
using namespace vm;
using namespace mpact::sim::util;

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<FlatDemandMemory> flat;
  std::unique_ptr<TaggedFlatDemandMemory> tflat;
  std::unique_ptr<MemoryWatcher> w;
  std::unique_ptr<TaggedMemoryWatcher> tw;
  std::map<std::string, vh::Handler> h;
  std::vector<std::vector<int>> calls;
  std::vector<std::pair<uint64_t, uint64_t>> ranges;  // by id
  auto emit = [&](Out& o, bool ok) {
    m->Emit(o);
    std::sort(calls.begin(), calls.end());
    o.open();
    for (auto& c : calls) o.list(c);
    o.close().i(ok);
    calls.clear();
  };
  auto end = [&](long long v) -> uint64_t { return v == -1000000 ? 0 : v == 1000000 ? ~0ull : m->origin + v; };
  auto peek = [&](uint64_t a) {
    auto* db = m->f->Allocate<uint8_t>(1);
    db->set_latency(0);
    MemoryInterface* mi = flat ? static_cast<MemoryInterface*>(flat.get()) : tflat.get();
    mi->Load(a, db, nullptr, nullptr);
    int v = db->Get<uint8_t>(0);
    db->DecRef();
    return v;
  };
  h["reset"] = [&](const Args& a, Out& o) {
    if (m) m->Clean();
    w.reset();
    tw.reset();
    flat.reset();
    tflat.reset();
    ranges.clear();
    m = std::make_unique<Mem>();
    m->origin = kOrigins[I(a[2])];
    m->gran = I(a[4]);
    if (a[1] == "plain") {
      flat = std::make_unique<FlatDemandMemory>(I(a[3]), m->origin, 1, 0);
      w = std::make_unique<MemoryWatcher>(flat.get());
      m->mem = w.get();
    } else {
      tflat = std::make_unique<TaggedFlatDemandMemory>(I(a[3]), m->origin, m->gran);
      tw = std::make_unique<TaggedMemoryWatcher>(tflat.get());
      m->mem = m->tmem = tw.get();
    }
    emit(o, true);
  };
  for (const char* n : {"st", "ld", "vst", "vld", "adv", "tst", "tld", "tonly"})
    h[n] = [&](const Args& a, Out& o) {
      m->Access(a);
      emit(o, true);
    };
  for (const char* n : {"setl", "sets"})
    h[n] = [&](const Args& a, Out& o) {
      m->data.clear(); m->tags.clear(); m->log.clear();
      uint64_t lo = end(I(a[1])), hi = end(I(a[2]));
      ranges.push_back({lo, hi});
      int id = ranges.size();
      bool ld = a[0] == "setl";
      auto cb = [&, id, lo, ld](uint64_t addr, int size) {
        int x = ld ? (int)m->log.size() : peek(std::max(addr, lo));
        calls.push_back({id, (int)(int64_t)(addr - m->origin), size, x});
      };
      bool ok;
      if (w) {
        MemoryWatcher::AddressRange r(lo, hi), p(lo);
        ok = (ld ? w->SetLoadWatchCallback(lo == hi ? p : r, cb) : w->SetStoreWatchCallback(lo == hi ? p : r, cb)).ok();
      } else {
        TaggedMemoryWatcher::AddressRange r(lo, hi), p(lo);
        ok = (ld ? tw->SetLoadWatchCallback(lo == hi ? p : r, cb) : tw->SetStoreWatchCallback(lo == hi ? p : r, cb)).ok();
      }
      emit(o, ok);
    };
  for (const char* n : {"clrl", "clrs"})
    h[n] = [&](const Args& a, Out& o) {
      m->data.clear(); m->tags.clear(); m->log.clear();
      uint64_t x = m->origin + I(a[1]);
      bool ld = a[0] == "clrl";
      bool ok = w ? (ld ? w->ClearLoadWatchCallback(x) : w->ClearStoreWatchCallback(x)).ok()
                  : (ld ? tw->ClearLoadWatchCallback(x) : tw->ClearStoreWatchCallback(x)).ok();
      emit(o, ok);
    };
  int rc = vh::Main(h);
  if (m) m->Clean();
  return rc;
}
