// Cache: spec/Caches.tla.
#include "mem_common.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace vm;
using namespace mpact::sim::util;

const uint64_t kBase[] = {0, 0x10'0000, 0x1'0000'0000ULL, 0x7fff'ffff'fff0'0000ULL, 0xffff'ffff'ffff'0000ULL};
const uint64_t kCycle[] = {0, 0xffff'fffaULL, 0x7fff'fffaULL, 0x7fff'ffff'ffff'fff0ULL};
const char* kNames[] = {"read_hit", "read_miss", "write_hit", "write_miss", "dirty_line_writeback", "read_around", "write_around",
                        "read_non_cacheable", "write_non_cacheable"};
const char* kBad[] = {"1k,16,1",           "1k,16,1,maybe",      "1q,16,1,true",  "1k,16x,1,true",  "1k,16,1x,true",
                      "1k,16,4,true,c:0",  "1k,16,4,false,c:0:y", "1k,16,8,true,z:0:1", "x,16,1,true",    "1k,,1,true",
                      "1k,16,,true",       "1k,16,16,false,c::7", "",              "1k,16,2,true,c:0:63,nc:64:127",
                      "1k,16,64,true,nc:128:64", "512,16,16,false,c:0:", "1k,16,2,"};

int main() {
  std::unique_ptr<Mem> m;
  std::unique_ptr<FlatDemandMemory> flat;
  std::unique_ptr<TaggedFlatDemandMemory> tflat;
  std::unique_ptr<Component> parent;
  std::unique_ptr<Cache> cache;
  std::unique_ptr<SimpleCounter<uint64_t>> cycle;
  std::map<std::string, vh::Handler> h;
  int n = 0;
  auto emit = [&](Out& o, bool ok) {
    m->Emit(o);
    std::vector<uint64_t> v;
    for (auto* name : kNames) v.push_back(dynamic_cast<SimpleCounter<uint64_t>*>(cache->GetCounter(name))->GetValue());
    o.list(v).i(ok && m->lat_ok);
    m->lat_ok = true;
  };
  // a[i..]: size line ways alloc mode ranges
  auto conf = [&](const Args& a, int i) {
    long long size = I(a[i]);
    std::string t = size % 1024 == 0 && size && n++ % 2 ? std::to_string(size / 1024) + "k" : std::to_string(size);
    t += "," + a[i + 1] + "," + a[i + 2] + (I(a[i + 3]) ? ",true" : ",false");
    auto r = L(a[i + 5]);
    for (size_t k = 0; k + 1 < r.size(); k += 2) {
      char b[80];
      snprintf(b, 80, n++ % 2 ? ",%s:0x%llx:0x%llx" : ",%s:%llu:%llu", I(a[i + 4]) == 1 ? "c" : "nc",
               (unsigned long long)(m->origin + r[k]), (unsigned long long)(m->origin + r[k + 1]));
      t += b;
    }
    return cache->Configure(t, cycle.get()).ok();
  };
  auto none = [&] { m->data.clear(); m->tags.clear(); m->log.clear(); };
  h["reset"] = [&](const Args& a, Out& o) {
    if (m) m->Clean();
    cache.reset();
    parent.reset();
    flat.reset();
    tflat.reset();
    m = std::make_unique<Mem>();
    m->origin = kBase[I(a[2])];
    m->gran = 8;
    cycle = std::make_unique<SimpleCounter<uint64_t>>("cycles", kCycle[I(a[3])]);
    parent = std::make_unique<Component>("parent");
    if (a[1] == "plain") {
      flat = std::make_unique<FlatDemandMemory>(65536, m->origin, 1, 0);
      cache = n++ % 2 ? std::make_unique<Cache>("cache", parent.get(), flat.get()) : std::make_unique<Cache>("cache", flat.get());
    } else if (a[1] == "none") {
      cache = n++ % 2 ? std::make_unique<Cache>("cache", parent.get()) : std::make_unique<Cache>("cache");
    } else {
      tflat = std::make_unique<TaggedFlatDemandMemory>(65536, m->origin, 8);
      if (a[1] == "tagged") {
        cache = n++ % 2 ? std::make_unique<Cache>("cache", parent.get(), tflat.get()) : std::make_unique<Cache>("cache", tflat.get());
      } else {
        cache = std::make_unique<Cache>("cache");
        cache->set_tagged_memory(tflat.get());
      }
    }
    m->mem = m->tmem = cache.get();
    emit(o, conf(a, 4));
  };
  for (const char* op : {"st", "ld", "vst", "vld", "adv", "tst", "tld", "tonly"})
    h[op] = [&](const Args& a, Out& o) {
      m->Access(a);
      emit(o, true);
    };
  h["cyc"] = [&](const Args& a, Out& o) {
    none();
    cycle->Increment(I(a[1]));
    emit(o, true);
  };
  h["conf"] = [&](const Args& a, Out& o) {
    none();
    emit(o, conf(a, 1));
  };
  h["badconf"] = [&](const Args& a, Out& o) {
    none();
    bool ok = n++ % 9 == 0 ? cache->Configure("1k,16,1,true", nullptr).ok()
                           : cache->Configure(kBad[I(a[1]) % (sizeof(kBad) / sizeof(*kBad))], cycle.get()).ok();
    emit(o, ok);
  };
  int rc = vh::Main(h);
  if (m) m->Clean();
  cache.reset();
  return rc;
}
