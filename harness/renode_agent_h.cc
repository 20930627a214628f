// Renode's C interface: see spec/RenodeAgents.tla.
// Arguments: scratch file, scale, then per core "pos,reason;pos,reason".
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "harness.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_mpact.h"

using namespace vh;
using namespace mpact::sim;
using generic::DataBuffer;
using util::renode::RenodeCpuRegister;
using util::renode::RenodeDebugInterface;

struct Arch : generic::ArchState {
  Arch() : ArchState("a", nullptr) {}
};
struct Inst : generic::Instruction {
  explicit Inst(generic::ArchState* a) : Instruction(a) {}
};
static std::vector<std::map<uint64_t, std::string>> cores;
static uint64_t scale = 1;
static std::string scratch;

// What the bus callbacks saw.
static int bus_tag = 0, bus_calls = 0;
static uint64_t bus_addr = 0;
static std::vector<int> bus_bytes;
template <int tag>
static int32_t Rd(uint64_t a, char* b, int32_t n) {
  bus_tag = tag;
  bus_calls++;
  bus_addr = a;
  int g = tag == 2 && a % 2 == 1 ? n - 1 : n;
  for (int i = 0; i < g; i++) b[i] = (a + i + 16 * tag) & 255;
  return g;
}
template <int tag>
static int32_t Wr(uint64_t a, char* b, int32_t n) {
  bus_tag = tag;
  bus_calls++;
  bus_addr = a;
  bus_bytes.assign((unsigned char*)b, (unsigned char*)b + n);
  return n;
}
using Cb = int32_t (*)(uint64_t, char*, int32_t);
static Cb RdOf(int t) { return t == 1 ? &Rd<1> : t == 2 ? &Rd<2> : nullptr; }
static Cb WrOf(int t) { return t == 1 ? &Wr<1> : t == 2 ? &Wr<2> : nullptr; }

struct Core;
static std::set<Core*> alive;
static int created = 0, deleted = 0;
struct Core : RenodeDebugInterface {
  std::string name;
  util::MemoryInterface* bus;
  std::unique_ptr<Arch> arch = std::make_unique<Arch>();
  std::map<uint64_t, std::string> stops;
  uint64_t pos = 0;
  std::string why = "none";
  bool bad = false;
  uint64_t reg[3] = {0, 0, 0};
  std::vector<unsigned char> mem = std::vector<unsigned char>(16, 0);
  uint64_t img_base = 0x10000, img_limit = ~0ULL;
  std::vector<int> img;      // bytes written from img_base on, -1: not written
  bool img_bad = false;
  int executed = 0;
  std::vector<long long> seen;
  Core(const std::string& n, util::MemoryInterface* m) : name(n), bus(m) { alive.insert(this); created++; }
  ~Core() override {
    // A core may use its bus until the end.
    auto* db = arch->db_factory()->Allocate<uint8_t>(4);
    db->set_latency(0);
    bus->Load(8, db, nullptr, nullptr);
    db->DecRef();
    alive.erase(this);
    deleted++;
  }
  absl::StatusOr<int> Step(int num) override {
    if (num <= 0) return absl::InvalidArgumentError("step");
    for (auto& [p, w] : stops) if (w == "done" && pos >= p) { why = "done"; return 0; }
    uint64_t target = pos + num;
    why = "none";
    for (auto& [p, w] : stops) {
      if (p <= pos || p > target) continue;
      int n = p - pos;
      pos = p;
      if (w == "err") return absl::InternalError("step");
      why = w;
      return n;
    }
    pos = target;
    return num;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    using H = HaltReason;
    if (bad) return absl::InternalError("why");
    H h = why == "bp" ? H::kSoftwareBreakpoint : why == "semi" ? H::kSemihostHaltRequest : why == "done" ? H::kProgramDone
          : why == "user" ? H::kUserRequest : H::kNone;
    return static_cast<HaltReasonValueType>(h);
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (a >= mem.size()) return absl::OutOfRangeError("mem");
    n = std::min<size_t>(n, mem.size() - a);
    memcpy(b, mem.data() + a, n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (a >= img_base) {
      auto* p = static_cast<const unsigned char*>(b);
      size_t done = 0;
      for (; done < n && a + done < img_limit; done++) {
        size_t i = a + done - img_base;
        if (i >= img.size()) img.resize(i + 1, -1);
        if (img[i] != -1) img_bad = true;
        img[i] = p[done];
      }
      return done;
    }
    if (a >= mem.size()) return absl::OutOfRangeError("mem");
    n = std::min<size_t>(n, mem.size() - a);
    memcpy(mem.data() + a, b, n);
    return n;
  }
  absl::StatusOr<uint64_t> LoadExecutable(const char* f, bool sym) override {
    seen = {std::string(f) == "good.elf" || std::string(f) == "bad.elf", sym};
    if (std::string(f) == "good.elf") return 2748;
    return absl::NotFoundError("elf");
  }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t r) override {
    if (r > 2) return absl::NotFoundError("reg");
    return reg[r];
  }
  absl::Status WriteRegister(uint32_t r, uint64_t v) override {
    if (r > 2) return absl::NotFoundError("reg");
    reg[r] = v;
    return absl::OkStatus();
  }
  int32_t GetRenodeRegisterInfoSize() const override { return 3; }
  absl::Status GetRenodeRegisterInfo(int32_t i, int32_t max_len, char* nm, RenodeCpuRegister& info) override {
    if (i < 0 || i > 2) return absl::NotFoundError("reg");
    memset(nm, 'r', max_len);
    info.index = i;
    return absl::OkStatus();
  }
  absl::Status SetConfig(const char* n[], const char* v[], int size) override {
    seen = {size};
    for (int i = 0; i < size; i++)
      if (std::string(v[i]) != "v" + std::to_string(i)) seen = {-7};
    if (size > 0 && std::string(n[0]) == "bad") return absl::InvalidArgumentError("config");
    return absl::OkStatus();
  }
  absl::Status SetIrqValue(int32_t i, bool b) override {
    seen = {i, b};
    return i < 8 ? absl::OkStatus() : absl::InvalidArgumentError("irq");
  }
};
static bool name_ok = true;
RenodeDebugInterface* CreateMpactSim(std::string name, std::string type, util::MemoryInterface* mem) {
  name_ok = true;
  for (auto* c : alive) if (c->name == name) name_ok = false;
  if (type == "none") return nullptr;
  int k = I(type.substr(4));
  auto* c = new Core(name, mem);
  c->stops = cores[k - 1];
  for (auto* o : alive) if (o != c && o->bus == mem) name_ok = false;
  return c;
}

constexpr long long kNone = -99;
static int64_t base = 0, top = 0;         // ids are reported relative to the ids used before
static std::map<std::string, int64_t> slot;  // real ids
static std::set<int64_t> made;
static int64_t Id(const Args& a) { return slot.count(a[1]) ? slot[a[1]] : 1000000; }
static Core* Last() { return nullptr; }
static std::map<int64_t, Core*> core_of;
static Core* Of(const Args& a) {
  auto it = core_of.find(Id(a));
  return it == core_of.end() || !alive.count(it->second) ? nullptr : it->second;
}
static std::string Type(const std::string& c) { return I(c) == 0 ? "none" : "core" + c; }
static void NewId(const Args& a, int32_t id, const std::set<Core*>& before, Out& o, bool fresh) {
  std::vector<Core*> now;
  for (auto* c : alive) if (!before.count(c)) now.push_back(c);
  if (id < 0) {
    slot.erase(a[1]);
    o.i(now.empty() ? kNone : -98).i(name_ok || !fresh);
    return;
  }
  if (now.size() == 1) core_of[id] = now[0];
  slot[a[1]] = id;
  made.insert(id);
  top = std::max<int64_t>(top, id + 1);
  o.i(id - base).i(now.empty() ? 0 : now.size() == 1 && name_ok ? 1 : 2);
}

int main(int argc, char** argv) {
  (void)Last;
  scratch = std::string(argv[1]) + std::to_string(getpid());
  scale = U(argv[2]);
  for (int i = 3; i < argc; i++) {
    std::map<uint64_t, std::string> m;
    std::stringstream ss(argv[i]);
    std::string t;
    while (std::getline(ss, t, ';')) {
      auto p = t.find(',');
      if (p != std::string::npos) m[U(t.substr(0, p)) * scale] = t.substr(p + 1);
    }
    cores.push_back(m);
  }
  std::map<std::string, Handler> h;
  h["reset"] = [](const Args&, Out&) {
    for (auto i : made) destruct(i);
    made.clear();
    slot.clear();
    core_of.clear();
    base = top;
    if (!alive.empty()) { fprintf(stderr, "cores left\n"); exit(66); }
  };
  h["construct"] = [](const Args& a, Out& o) {
    auto before = alive;
    std::string t = Type(a[2]);
    int rd = I(a[4]), wr = I(a[5]);
    int32_t id = rd == 0 && wr == 0 ? construct(t.data(), I(a[3])) : construct_with_sysbus(t.data(), I(a[3]), RdOf(rd), WrOf(wr));
    NewId(a, id, before, o, true);
  };
  h["connect"] = [](const Args& a, Out& o) {
    auto before = alive;
    std::string t = Type(a[4]);
    int rd = I(a[6]), wr = I(a[7]);
    int32_t want = slot[a[2]] + I(a[3]);
    int32_t id = rd == 0 && wr == 0 ? connect(t.data(), want, I(a[5])) : connect_with_sysbus(t.data(), want, I(a[5]), RdOf(rd), WrOf(wr));
    if (id >= 0 && id != want) id = -98;
    NewId(a, id, before, o, true);
  };
  h["destruct"] = [](const Args& a, Out& o) {
    int d = deleted;
    Core* c = Of(a);
    destruct(Id(a));
    o.i(deleted - d == 0 ? 0 : deleted - d == 1 && c && !alive.count(c) ? 1 : 2);
  };
  h["step"] = [](const Args& a, Out& o) {
    int32_t st = 77;
    uint64_t n = step(Id(a), U(a[2]) * scale, I(a[3]) ? &st : nullptr);
    o.i(n % scale ? -5 : (long long)(n / scale)).i(I(a[3]) ? st : 99);
  };
  h["badwhy"] = [](const Args& a, Out&) { Of(a)->bad = I(a[2]); };
  h["rdreg"] = [](const Args& a, Out& o) {
    uint64_t v = ~0ULL;
    int rc = read_register(Id(a), I(a[2]), &v);
    if (read_register(Id(a), I(a[2]), nullptr) != -1) rc = -7;
    o.i(rc).i((long long)v);
  };
  h["wrreg"] = [](const Args& a, Out& o) { o.i(write_register(Id(a), I(a[2]), I(a[3]))); };
  h["reginfo"] = [](const Args& a, Out& o) {
    char nm[64] = {0};
    RenodeCpuRegister r{-1, 0, false, false};
    int rc = get_reg_info(Id(a), I(a[2]), nm, &r);
    if (get_reg_info(Id(a), I(a[2]), nm, nullptr) != -1) rc = -7;
    if (rc == 0 && r.index != I(a[2])) rc = -8;
    o.i(rc).i(strlen(nm));
  };
  h["regsize"] = [](const Args& a, Out& o) { o.i(get_reg_info_size(Id(a))); };
  h["hwreset"] = [](const Args& a, Out& o) { o.i(reset(Id(a))); };
  h["rdmem"] = [](const Args& a, Out& o) {
    unsigned char b[64];
    memset(b, 0xcc, sizeof b);
    uint64_t n = read_memory(Id(a), I(a[2]), (char*)b, I(a[3]));
    o.i(n).open();
    for (uint64_t i = 0; i < n && i < 64; i++) o.i(b[i]);
    o.close();
  };
  h["wrmem"] = [](const Args& a, Out& o) {
    auto v = L(a[3]);
    std::string b;
    for (auto x : v) b += char(x);
    o.i(write_memory(Id(a), I(a[2]), b.data(), b.size()));
  };
  h["image"] = [](const Args& a, Out& o) {
    size_t n = I(a[2]);
    int f = I(a[3]);
    std::vector<char> d(n);
    for (size_t i = 0; i < n; i++) d[i] = char((i * 7 + i / 251) & 255);
    { std::ofstream os(scratch, std::ios::binary | std::ios::trunc); os.write(d.data(), n); }
    Core* c = Of(a);
    if (c) {
      c->img.clear();
      c->img_bad = false;
      c->img_limit = f == 2 ? c->img_base + n / 2 : ~0ULL;
    }
    std::string file = f == 0 ? scratch + ".none" : scratch;
    int rc = load_image(Id(a), file.c_str(), c ? c->img_base : 0x10000);
    unlink(scratch.c_str());
    bool same = true;
    if (c && f == 1) {
      same = !c->img_bad && c->img.size() == n;
      for (size_t i = 0; i < n && same; i++) same = c->img[i] == (unsigned char)d[i];
    } else if (c) {   // whatever was written is right
      for (size_t i = 0; i < c->img.size() && same; i++) same = i < n && c->img[i] == (unsigned char)d[i];
      if (f == 0) same = same && c->img.empty();
    }
    o.i(rc).i(same);
  };
  h["elf"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    if (c) c->seen.clear();
    int32_t st = 77;
    uint64_t e = load_elf(Id(a), I(a[2]) ? "good.elf" : "bad.elf", I(a[3]), &st);
    o.i(e).i(st).i(!c ? 0 : c->seen == std::vector<long long>{1, I(a[3])} ? 1 : 2);
  };
  h["config"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    if (c) c->seen = {0};
    const char* n[] = {I(a[2]) ? "good" : "bad", "two", "three"};
    const char* v[] = {"v0", "v1", "v2"};
    int rc = set_config(Id(a), n, v, I(a[3]));
    o.i(rc).i(c ? c->seen[0] : 0);
  };
  h["irq"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    if (c) c->seen.clear();
    o.i(set_irq_value(Id(a), I(a[2]), I(a[3])));
    o.list(c ? c->seen : std::vector<long long>{});
  };
  h["load"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    int z = I(a[3]), lat = I(a[4]);
    auto* db = c->arch->db_factory()->Allocate<uint8_t>(z);
    memset(db->raw_ptr(), 0xee, z);
    db->set_latency(lat);
    auto* in = new Inst(c->arch.get());
    auto* want = db;
    in->set_semantic_function([c](generic::Instruction*) { c->executed++; });
    bus_tag = bus_calls = 0;
    c->executed = 0;
    c->bus->Load(I(a[2]), want, in, nullptr);
    in->DecRef();
    int g = z;
    if (bus_tag == 2 && I(a[2]) % 2 == 1) g--;
    if (bus_calls > 1 || (bus_calls == 1 && bus_addr != (uint64_t)I(a[2]))) bus_tag = -1;
    o.i(bus_tag).open();
    for (int i = 0; i < g; i++) o.i(db->Get<uint8_t>(i));
    o.close().i(c->executed);
    db->DecRef();
  };
  h["store"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    int z = I(a[3]);
    auto* db = c->arch->db_factory()->Allocate<uint8_t>(z);
    for (int i = 1; i <= z; i++) db->Set<uint8_t>(i - 1, (I(a[2]) + 3 * i) % 256);
    bus_tag = bus_calls = 0;
    bus_bytes.clear();
    c->bus->Store(I(a[2]), db);
    if (bus_calls > 1 || (bus_calls == 1 && bus_addr != (uint64_t)I(a[2]))) bus_tag = -1;
    o.i(bus_tag).list(bus_bytes);
    db->DecRef();
  };
  h["adv"] = [](const Args& a, Out& o) {
    Core* c = Of(a);
    c->executed = 0;
    c->arch->AdvanceDelayLines();
    o.i(c->executed);
  };
  return Main(h);
}
