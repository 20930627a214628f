// ComplexResource and ComplexResourceOperand.
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
using namespace mpact::sim::generic;
struct St : ArchState {
  St() : ArchState("st") {}
  void cyc(uint64_t v) { set_cycle(v); }
};
int main() {
  std::unique_ptr<St> st;
  std::unique_ptr<ComplexResource> r;
  std::unique_ptr<ComplexResourceOperand> op;
  auto words = [](const vh::Args& a) {
    std::vector<uint64_t> w(vh::I(a[2]), 0);
    for (auto b : vh::L(a[1])) if (b / 64 < (long long)w.size()) w[b / 64] |= 1ull << (b % 64);
    return w;
  };
  auto seen = [&](bool ret, vh::Out& o) {
    std::vector<int> busy;
    int n = (r->cycle_depth() + 63) / 64;
    for (int b = 0; b < n * 64; b++) {
      std::vector<uint64_t> w(n, 0);
      w[b / 64] = 1ull << (b % 64);
      if (!r->IsFree(w)) busy.push_back(b);
    }
    o.b(ret).list(busy);
  };
  auto mask = [&](bool ok, vh::Out& o) {
    std::vector<int> m;
    auto sp = op->bit_array();
    for (size_t i = 0; i < sp.size() * 64; i++) if ((sp[i / 64] >> (i % 64)) & 1) m.push_back(i);
    o.b(ok).list(m);
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out& o) {
    // Executions start at different points of time; some cross 2^32 cycles.
    static const uint64_t kEpoch[] = {0, (1ULL << 32) - 40, (1ULL << 40) - 100};
    static int turn = 0;
    uint64_t epoch = kEpoch[turn++ % 3];
    op.reset();
    r.reset();
    st = std::make_unique<St>();
    st->cyc(epoch);
    r = std::make_unique<ComplexResource>(st.get(), "r", vh::I(a[1]));
    op = std::make_unique<ComplexResourceOperand>(r.get());
    if (r->name() != "r" || r->AsString() != "r" || op->AsString() != "r" || (long long)r->cycle_depth() != vh::I(a[1])) o.s("bad");
  };
  h["acq"] = [&](const vh::Args& a, vh::Out& o) { r->Acquire(words(a)); seen(true, o); };
  h["rel"] = [&](const vh::Args& a, vh::Out& o) { r->Release(words(a)); seen(true, o); };
  h["free"] = [&](const vh::Args& a, vh::Out& o) { bool f = r->IsFree(words(a)); seen(f, o); };
  h["adv"] = [&](const vh::Args& a, vh::Out& o) { st->cyc(st->cycle() + vh::I(a[1])); };
  h["range"] = [&](const vh::Args& a, vh::Out& o) { bool k = op->SetCycleMask(vh::I(a[1]), vh::I(a[2])).ok(); mask(k, o); };
  h["mask"] = [&](const vh::Args& a, vh::Out& o) { auto w = words(a); bool k = op->SetCycleMask(absl::Span<const uint64_t>(w)).ok(); mask(k, o); };
  h["ofree"] = [&](const vh::Args& a, vh::Out& o) { bool f = op->IsFree(); seen(f, o); };
  h["oacq"] = [&](const vh::Args& a, vh::Out& o) { op->Acquire(); seen(true, o); };
  return vh::Main(h);
}
