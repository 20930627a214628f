// Memory use profilers: see spec/MemProfile.tla.  Windows: arguments "base" each, ascending.
#include "mem_common.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"

using namespace vm;
using mpact::sim::util::MemoryUseProfiler;
using mpact::sim::util::TaggedMemoryUseProfiler;

struct Call {
  int kind;
  uint64_t address;
  const void *a, *m, *db, *tags, *inst, *ctx;
  int el;
  bool operator==(const Call& o) const {
    return kind == o.kind && address == o.address && a == o.a && m == o.m && db == o.db && tags == o.tags && inst == o.inst &&
           ctx == o.ctx && el == o.el;
  }
};
static std::vector<Call> calls;
struct Rec : TaggedMemoryInterface {
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* c) override { calls.push_back({0, a, 0, 0, db, 0, i, c, 0}); }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    calls.push_back({10, 0, a, m, db, 0, i, c, el});
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* c) override {
    calls.push_back({2, a, 0, 0, db, t, i, c, 0});
  }
  void Store(uint64_t a, DataBuffer* db) override { calls.push_back({1, a, 0, 0, db, 0, 0, 0, 0}); }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override { calls.push_back({11, 0, a, m, db, 0, 0, 0, el}); }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override { calls.push_back({3, a, 0, 0, db, t, 0, 0, 0}); }
};
static Rec rec;
static std::unique_ptr<MemoryUseProfiler> plain;
static std::unique_ptr<TaggedMemoryUseProfiler> tagged;
static MemoryInterface* mem() { return tagged ? static_cast<MemoryInterface*>(tagged.get()) : plain.get(); }
static std::vector<uint64_t> bases;
static std::unique_ptr<DataBufferFactory> fac;

static int Fwd(const Call& want) {
  if (calls.empty()) return 0;
  return calls.size() == 1 && calls[0] == want ? 1 : 2;
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) bases.push_back(vh::U(argv[i]));
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    plain.reset();
    tagged.reset();
    fac = std::make_unique<DataBufferFactory>();
    bool fwd = I(a[2]);
    if (I(a[1]))
      tagged = fwd ? std::make_unique<TaggedMemoryUseProfiler>(&rec) : std::make_unique<TaggedMemoryUseProfiler>();
    else
      plain = fwd ? std::make_unique<MemoryUseProfiler>(&rec) : std::make_unique<MemoryUseProfiler>();
  };
  h["on"] = [](const Args& a, Out&) {
    if (tagged) tagged->set_is_enabled(I(a[1])); else plain->set_is_enabled(I(a[1]));
  };
  static char inst_mem[8], ctx_mem[8];
  static auto* inst = reinterpret_cast<Instruction*>(inst_mem);
  static auto* ctx = reinterpret_cast<ReferenceCount*>(ctx_mem);
  h["acc"] = [](const Args& a, Out& o) {
    int k = I(a[1]);
    uint64_t ad = bases[I(a[2]) - 1] + I(a[3]);
    auto* db = fac->Allocate<uint8_t>(I(a[4]));
    auto* tags = fac->Allocate<uint8_t>(1);
    calls.clear();
    Call want{k, ad, 0, 0, db, 0, 0, 0, 0};
    if (k == 0) mem()->Load(ad, db, inst, ctx);
    if (k == 1) mem()->Store(ad, db);
    if (k == 2) tagged->Load(ad, db, tags, inst, ctx);
    if (k == 3) tagged->Store(ad, db, tags);
    if (k == 4) tagged->Load(ad, nullptr, tags, inst, ctx), want.db = nullptr, want.kind = 2;
    if (k == 0 || k == 2 || k == 4) want.inst = inst, want.ctx = ctx;
    if (k >= 2) want.tags = tags;
    o.i(Fwd(want));
    db->DecRef();
    tags->DecRef();
  };
  auto vec = [](int k, const std::vector<uint64_t>& as, const std::vector<long long>& m, int el, Out& o) {
    auto* adb = fac->Allocate<uint64_t>(as.size());
    auto* mdb = fac->Allocate<uint8_t>(m.size());
    auto* db = fac->Allocate<uint8_t>(m.size() * el);
    for (size_t i = 0; i < as.size(); i++) adb->Set<uint64_t>(i, as[i]);
    for (size_t i = 0; i < m.size(); i++) mdb->Set<uint8_t>(i, m[i]);
    calls.clear();
    Call want{10 + k, 0, adb, mdb, db, 0, k ? nullptr : inst, k ? nullptr : ctx, el};
    if (k == 0) mem()->Load(adb, mdb, el, db, inst, ctx); else mem()->Store(adb, mdb, el, db);
    o.i(Fwd(want));
    adb->DecRef(); mdb->DecRef(); db->DecRef();
  };
  h["unit"] = [vec](const Args& a, Out& o) {
    vec(I(a[1]), {bases[I(a[2]) - 1] + I(a[3])}, L(a[5]), I(a[4]), o);
  };
  h["gather"] = [vec](const Args& a, Out& o) {   // addresses arrive as [[w,o],[w,o]]
    std::string t = a[2];
    for (auto& c : t) if (c == '[' || c == ']') c = ' ';
    auto v = L("[" + t + "]");
    std::vector<uint64_t> as;
    for (size_t i = 0; i + 1 < v.size(); i += 2) as.push_back(bases[v[i] - 1] + v[i + 1]);
    vec(I(a[1]), as, L(a[4]), I(a[3]), o);
  };
  h["fill"] = [](const Args& a, Out&) {
    auto* db = fac->Allocate<uint32_t>(1);
    for (int i = 0; i < I(a[3]); i++) {
      if (i & 1) mem()->Store(bases[I(a[1]) - 1] + I(a[2]) + 4 * i, db);
      else mem()->Load(bases[I(a[1]) - 1] + I(a[2]) + 4 * i, db, nullptr, nullptr);
    }
    db->DecRef();
  };
  h["profile"] = [](const Args&, Out& o) {
    std::stringstream ss;
    if (tagged) tagged->WriteProfile(ss); else plain->WriteProfile(ss);
    std::string ln;
    while (std::getline(ss, ln)) {
      unsigned long long s = 0, e = 0, n = 0;
      int used = 0;
      o.open();
      if (sscanf(ln.c_str(), "0x%llx,0x%llx,%llu%n", &s, &e, &n, &used) != 3 || used != (int)ln.size()) {
        o.i(-1).close();
        continue;
      }
      int w = -1;
      for (size_t i = 0; i < bases.size(); i++) if (s >= bases[i]) w = i;
      if (w < 0) { o.i(-2).close(); continue; }
      uint64_t ds = s - bases[w], de = e - bases[w];
      auto cap = [](uint64_t x) { return (long long)(x < 1000000000 ? x : 1000000000); };
      o.i(w + 1).i(cap(ds)).i(cap(de)).i(cap(n)).close();
    }
  };
  return vh::Main(h);
}
