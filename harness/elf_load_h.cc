// ElfProgramLoader: see spec/ElfLoad.tla.
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include "elfgen.h"
#include "harness.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
using namespace mpact::sim;
using namespace mpact::sim::generic;
using namespace mpact::sim::util;
using vh::Args;
using vh::I;
using vh::Out;

static std::vector<std::string> Parts(const std::string& s) {
  std::vector<std::string> r;
  std::string t = s.substr(1, s.size() - 2), x;
  int d = 0;
  for (char ch : t) {
    if (ch == '[') d++;
    if (ch == ']') d--;
    if (ch == ',' && d == 0) { r.push_back(x); x.clear(); continue; }
    if (ch != '"' && ch != ' ') x += ch;
  }
  if (!t.empty()) r.push_back(x);
  return r;
}
static uint64_t base;
static int cls;
static uint64_t Abs(int v) { return v == 0 ? 0 : base + v; }
static long long Rel(uint64_t v) {
  if (v == 0) return 0;
  uint64_t r = v - base;
  return r < 0x10000000 ? (long long)r : -1;
}
static int stray;
struct Mem : MemoryInterface {
  unsigned char b[64];
  Mem() { memset(b, 0, sizeof b); }
  void Put(uint64_t a, const unsigned char* p, size_t n) {
    for (size_t i = 0; i < n; i++) {
      uint64_t x = a + i;
      long long r = x >= base && x < base + 64 ? (long long)(x - base) : (a < 64 && base != 0 && x < 64) ? (long long)x : -1;
      if (r < 0) stray++;
      else b[r] = p[i];
    }
  }
  void Store(uint64_t a, DataBuffer* db) override { Put(a, static_cast<unsigned char*>(db->raw_ptr()), db->size<uint8_t>()); }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override { stray++; }
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override { stray++; }
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override { stray++; }
};
static std::unique_ptr<Mem> m1, m2;
struct Dbg : CoreDebugInterface {
  absl::Status Halt() override { return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
  absl::StatusOr<int> Step(int) override { return 0; }
  absl::Status Run() override { return absl::OkStatus(); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return RunStatus::kHalted; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return *HaltReason::kNone; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return 0; }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return absl::OkStatus(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return nullptr; }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { return 0; }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* p, size_t n) override {
    uint64_t top = base + 56;
    if (a + n > top) {
      if (a & 1) return absl::InternalError("no memory");
      return n - 1;  // one byte could not be written
    }
    m1->Put(a, static_cast<const unsigned char*>(p), n);
    return n;
  }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearAllSwBreakpoints() override { return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return nullptr; }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return std::string(); }
};
static Dbg dbg;
static std::vector<MemoryDescriptor> list;
static std::unique_ptr<ElfProgramLoader> ld;
static std::string dir;
static int files;

static std::string WriteFile(const std::string& spec) {
  auto f = Parts(spec);
  std::string name = dir + "/f" + std::to_string(++files % 7);
  unlink(name.c_str());
  if (f[0] == "missing") return name;
  if (f[0] == "bad") {
    std::ofstream(name) << (files % 3 == 0 ? "" : files % 3 == 1 ? "not an elf file at all" : "\x7f" "ELF\x09\x01\x01 and then nonsense nonsense");
    return name;
  }
  ElfGen g;
  g.cls = cls;
  g.entry = Abs(I(f[1]));
  for (auto& t : Parts(f[2])) {
    auto p = Parts(t);
    ElfGen::Seg s;
    s.type = p[0] == "load" ? 1 : p[0] == "stack" ? 0x6474e551 : 4;
    s.flags = 4 | (p[1] == "1" ? 1 : 0) | (p[2] == "1" ? 2 : 0);
    s.vaddr = Abs(I(p[3]));
    s.paddr = Abs(I(p[4]));
    for (auto& x : Parts(p[5])) s.data += char(I(x));
    s.memsz = I(p[6]);
    g.segs.push_back(s);
  }
  std::vector<ElfGen::Sym> st;
  for (auto& t : Parts(f[3])) {
    auto p = Parts(t);
    ElfGen::Sym y;
    y.name = p[0];
    y.type = p[1] == "f" ? 2 : 1;
    y.value = Abs(I(p[2]));
    y.size = I(p[3]);
    st.push_back(y);
  }
  if (!st.empty() || files % 2) g.symtabs.push_back(st);
  g.Write(name);
  return name;
}

int main() {
  dir = (getenv("TMPDIR") ? getenv("TMPDIR") : std::string("/tmp")) + "/elf_load_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    ld.reset();
    stray = 0;
    cls = 2;
    base = I(a[3]) == 0 ? 0 : 0x8000'0000'0000'1000ULL;
    m1 = std::make_unique<Mem>();
    m2 = std::make_unique<Mem>();
    if (a[1] == "one") ld = std::make_unique<ElfProgramLoader>(static_cast<MemoryInterface*>(m1.get()));
    if (a[1] == "two") ld = std::make_unique<ElfProgramLoader>(m1.get(), m2.get());
    if (a[1] == "dbg") ld = std::make_unique<ElfProgramLoader>(&dbg);
    if (a[1] == "list") {
      list.clear();
      list.push_back({m1.get(), [](const ELFIO::segment& s) { return (s.get_flags() & 1) != 0; }, nullptr});
      list.push_back({m2.get(), [](const ELFIO::segment& s) { return (s.get_flags() & 2) != 0; }, [](uint64_t x) { return x + 16; }});
      list.push_back({m1.get(), [](const ELFIO::segment& s) { return (s.get_flags() & 2) != 0; }, nullptr});
      ld = std::make_unique<ElfProgramLoader>(list);
    }
    ld->set_text_size_scale(I(a[2]));
    if (base == 0) cls = I(a[2]) == 1 ? 1 : 2;
  };
  h["load"] = [](const Args& a, Out& o) {
    auto n = WriteFile(a[1]);
    auto r = ld->LoadProgram(n);
    unlink(n.c_str());
    if (r.ok()) o.i(Rel(*r));
  };
  h["symbols"] = [](const Args& a, Out& o) {
    auto n = WriteFile(a[1]);
    auto r = ld->LoadSymbols(n);
    unlink(n.c_str());
    if (r.ok()) o.i(Rel(*r));
  };
  h["sym"] = [](const Args& a, Out& o) {
    auto r = ld->GetSymbol(a[1]);
    if (r.ok()) o.i(Rel(r->first)).i(r->second);
  };
  h["at"] = [](const Args& a, Out& o) {
    auto r = ld->GetFcnSymbolName(Abs(I(a[1])));
    if (r.ok()) o.s(*r);
  };
  h["in"] = [](const Args& a, Out& o) {
    auto r = ld->GetFunctionName(Abs(I(a[1])));
    if (r.ok()) o.s(*r);
  };
  h["stack"] = [](const Args&, Out& o) {
    auto r = ld->GetStackSize();
    if (r.ok()) o.i(*r);
  };
  h["peek"] = [](const Args&, Out& o) {
    o.list(m1->b).list(m2->b).i(stray);
  };
  int rc = vh::Main(h);
  ld.reset();
  for (int k = 0; k < 7; k++) unlink((dir + "/f" + std::to_string(k)).c_str());
  rmdir(dir.c_str());
  return rc;
}
