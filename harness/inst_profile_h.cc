// Instruction profiler: see spec/InstProfile.tla.
// Arguments: scratch file, then per layout "granularity:base:class:attached:counter:load,exec,first,len;..."
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <memory>
#include "elfgen.h"
#include "harness.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"

using namespace vh;
using mpact::sim::generic::SimpleCounter;
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::InstructionProfiler;

struct Lay {
  uint64_t gran, base;
  int cls;
  bool attached, counter;
  std::vector<std::vector<long long>> segs;
};
static std::vector<Lay> lays;
static std::string scratch;
static Lay* cur;
static std::unique_ptr<ElfProgramLoader> loader;
static std::unique_ptr<InstructionProfiler> prof;
static std::unique_ptr<SimpleCounter<uint64_t>> counter;

static void Sample(uint64_t v) {
  if (counter) counter->SetValue(v); else prof->SetValue(v);
}

int main(int argc, char** argv) {
  scratch = std::string(argv[1]) + std::to_string(getpid());
  for (int i = 2; i < argc; i++) {
    std::stringstream ss(argv[i]);
    std::string t;
    std::vector<std::string> f;
    while (std::getline(ss, t, ':')) f.push_back(t);
    Lay l{U(f[0]), U(f[1]), (int)I(f[2]), I(f[3]) != 0, I(f[4]) != 0, {}};
    std::stringstream s2(f.size() > 5 ? f[5] : "");
    while (std::getline(s2, t, ';')) l.segs.push_back(L("[" + t + "]"));
    lays.push_back(l);
  }
  std::map<std::string, Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    prof.reset();
    counter.reset();
    cur = &lays[I(a[1]) - 1];
    ElfGen g;
    g.cls = cur->cls;
    for (auto& s : cur->segs) {
      ElfGen::Seg x;
      x.type = s[0] ? 1 : 4;
      x.flags = 4 | (s[1] ? 1 : 2);
      x.vaddr = x.paddr = cur->base + s[2] * cur->gran;
      x.memsz = s[3] * cur->gran;
      g.segs.push_back(x);
    }
    g.Write(scratch);
    static char none[8];
    loader = std::make_unique<ElfProgramLoader>(reinterpret_cast<mpact::sim::util::MemoryInterface*>(none));
    bool loaded = loader->LoadSymbols(scratch).ok();
    unlink(scratch.c_str());
    if (!loaded) { fprintf(stderr, "elf\n"); exit(76); }
    prof = cur->attached ? std::make_unique<InstructionProfiler>(*loader, cur->gran)
                         : std::make_unique<InstructionProfiler>(cur->gran);
    if (cur->counter) {
      counter = std::make_unique<SimpleCounter<uint64_t>>("pc", 0);
      counter->AddListener(prof.get());
      counter->SetIsEnabled(true);
    }
  };
  h["pc"] = [](const Args& a, Out&) { Sample(cur->base + I(a[1]) * cur->gran + I(a[2]) % cur->gran); };
  h["ones"] = [](const Args&, Out&) { Sample(~0ULL); };
  h["attach"] = [](const Args&, Out&) { prof->SetElfLoader(loader.get()); };
  h["profile"] = [](const Args&, Out& o) {
    std::stringstream ss;
    prof->WriteProfile(ss);
    std::string ln;
    std::getline(ss, ln);
    if (ln != "Address,Count") o.open().s(ln).close();
    while (std::getline(ss, ln)) {
      unsigned long long v = 0, n = 0;
      int used = 0;
      o.open();
      if (sscanf(ln.c_str(), "0x%llx,%llu%n", &v, &n, &used) != 2 || used != (int)ln.size() || (v - cur->base) % cur->gran) o.i(-1);
      else o.i((long long)((v - cur->base) / cur->gran) & 0x3fffffff).i(n & 0x3fffffff);
      o.close();
    }
  };
  return Main(h);
}
