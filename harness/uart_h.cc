// SimpleUart: see spec/Uarts.tla.
#include <memory>
#include <streambuf>
#include "mem_common.h"
#include "mpact/sim/util/other/simple_uart.h"

using namespace vm;
using mpact::sim::util::SimpleUart;

struct Sink : std::streambuf {
  std::string text;
  size_t synced = 0;
  int_type overflow(int_type c) override { text.push_back(char(c)); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { text.append(p, n); return n; }
  int sync() override { synced = text.size(); return 0; }
};
static std::unique_ptr<Arch> arch;
static std::unique_ptr<Sink> sink;
static std::unique_ptr<std::ostream> os;
static std::unique_ptr<SimpleUart> uart;
static uint64_t base;
static int executed, live_before;
// The uart is placed in memory with a pattern in it.
alignas(SimpleUart) static unsigned char place[sizeof(SimpleUart)];
static bool placed = false;

static void Drop() {
  if (placed) reinterpret_cast<SimpleUart*>(place)->~SimpleUart();
  placed = false;
}
static SimpleUart* U0() { return reinterpret_cast<SimpleUart*>(place); }

int main() {
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    Drop();
    arch = std::make_unique<Arch>();
    sink = std::make_unique<Sink>();
    os = std::make_unique<std::ostream>(sink.get());
    const uint64_t bases[] = {0, 0x10000000, 0xffff'ffff'ffff'0000ULL};
    base = bases[I(a[1])];
    memset(place, 0xa5, sizeof place);
    new (place) SimpleUart(arch.get(), *os);
    placed = true;
  };
  h["st"] = [](const Args& a, Out&) {
    auto v = L(a[2]);
    auto* db = arch->db_factory()->Allocate<uint32_t>(v.size());
    for (size_t i = 0; i < v.size(); i++) db->Set<uint32_t>(i, v[i]);
    U0()->Store(base + I(a[1]), db);
    db->DecRef();
  };
  h["stodd"] = [](const Args& a, Out&) {
    auto* db = arch->db_factory()->Allocate<uint8_t>(I(a[2]));
    memset(db->raw_ptr(), 0, I(a[2]));
    bool odd = (I(a[1]) & 3) || (I(a[2]) & 3);
    if (odd) memset(db->raw_ptr(), 0x41, I(a[2]));
    U0()->Store(base + I(a[1]), db);
    db->DecRef();
  };
  auto load = [](uint64_t off, int bytes, int lat, bool words, Out& o) {
    auto* db = arch->db_factory()->Allocate<uint8_t>(bytes);
    memset(db->raw_ptr(), 0xee, bytes);
    db->set_latency(lat);
    auto* in = new Inst(arch.get());
    auto* ctx = new Ctx();
    executed = 0;
    in->set_semantic_function([](Instruction*) { executed++; });
    U0()->Load(base + off, db, in, ctx);
    in->DecRef();
    ctx->DecRef();
    o.open();
    if (words) for (int i = 0; i < bytes / 4; i++) o.i(db->Get<uint32_t>(i));
    else for (int i = 0; i < bytes; i++) o.i(db->Get<uint8_t>(i));
    o.close().i(executed);
    db->DecRef();
  };
  h["ld"] = [load](const Args& a, Out& o) { load(I(a[1]), 4 * I(a[2]), I(a[3]), true, o); };
  h["ldodd"] = [load](const Args& a, Out& o) { load(I(a[1]), I(a[2]), I(a[3]), false, o); };
  h["adv"] = [](const Args&, Out& o) {
    executed = 0;
    arch->AdvanceDelayLines();
    o.i(executed);
  };
  h["text"] = [](const Args&, Out& o) {
    o.open();
    for (unsigned char c : sink->text) o.i(c);
    o.close();
    auto nl = sink->text.rfind('\n');
    o.b(nl == std::string::npos || sink->synced > nl);
  };
  return vh::Main(h);
}
