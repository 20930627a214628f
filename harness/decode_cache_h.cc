#include <memory>
#include <set>
#include "harness.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic;

static std::set<int> live;
struct Inst : Instruction {
  int g;
  Inst(uint64_t a, int g_) : Instruction(a, nullptr), g(g_) { live.insert(g); }
  ~Inst() override { live.erase(g); }
};
struct Dec : DecoderInterface {
  int gen = 0;
  std::set<uint64_t> nodec;
  Instruction* DecodeInstruction(uint64_t a) override {
    if (nodec.count(a)) return nullptr;
    auto* i = new Inst(a, ++gen);
    i->set_size(4);
    return i;
  }
  int GetNumOpcodes() const override { return 0; }
  const char* GetOpcodeName(int) const override { return ""; }
};

int main(int argc, char** argv) {
  uint64_t base = argc > 1 ? strtoull(argv[1], nullptr, 0) : 0;
  std::unique_ptr<Dec> dec;
  std::unique_ptr<DecodeCache> dc;
  std::vector<Instruction*> held;
  DecodeCacheProperties props;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      dc.reset();
      for (auto* i : held) i->DecRef();
      held.clear();
      live.clear();
      dec = std::make_unique<Dec>();
      props.num_entries = vh::I(a[1]);
      props.minimum_pc_increment = vh::I(a[2]);
      dc.reset(DecodeCache::Create(props, dec.get()));
      o.b(dc != nullptr).i(dc ? dc->num_entries() : 0);
      return;
    }
    auto ad = [&](int i) { return base + (uint64_t)vh::I(a[i]); };
    if (a[0] == "get") {
      auto* i = dc->GetDecodedInstruction(ad(1));
      if (i && i->address() != ad(1)) o.i(-1);
      else o.i(i ? static_cast<Inst*>(i)->g : 0);
      if (i && vh::I(a[2])) {
        i->IncRef();
        held.push_back(i);
      }
    } else if (a[0] == "inv") dc->Invalidate(ad(1));
    else if (a[0] == "range") dc->InvalidateRange(ad(1), ad(2));
    else if (a[0] == "all") dc->InvalidateAll();
    else if (a[0] == "release") {
      if (!held.empty()) {
        held[0]->DecRef();
        held.erase(held.begin());
      }
    } else if (a[0] == "destroy") {
      dc.reset();
      dc.reset(DecodeCache::Create(props, dec.get()));
    } else if (a[0] == "nodec") {
      if (!dec->nodec.erase(ad(1))) dec->nodec.insert(ad(1));
    }
    o.list(live);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "get", "inv", "range", "all", "release", "destroy", "nodec"}) h[n] = gen;
  return vh::Main(h);
}
