// RunControl.tla on RenodeCLITop and CLIForwarder, with every thread under the
// control of the cooperative scheduler behind absl::Mutex (shim/sched).
#include <cstring>
#include <memory>
#include <random>
#include <set>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/synchronization/mutex.h"
#include "harness.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
using namespace mpact::sim;
using generic::CoreDebugInterface;
using generic::DataBuffer;
using generic::Instruction;
using util::renode::CLIForwarder;
using util::renode::RenodeCLITop;
using vsched::Scheduler;

struct Core : CoreDebugInterface {
  std::set<int> bps;
  int end = 0;
  int pos = 0;
  bool in_step = false, halt = false;
  int ticks = 0, idle_calls = 0;
  HaltReasonValueType why = static_cast<HaltReasonValueType>(HaltReason::kNone);
  std::vector<std::string> log;  // calls other than Step
  std::vector<std::pair<std::string, std::string>> ev;
  void Quiet(const std::string& what) {
    if (in_step) log.push_back("during a step"); else log.push_back(what);
  }
  absl::Status Halt() override { halt = in_step; return absl::OkStatus(); }
  absl::Status Halt(HaltReason r) override { log.push_back("haltr" + std::to_string((unsigned)r)); return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType r) override { log.push_back("haltv" + std::to_string(r)); return absl::OkStatus(); }
  absl::StatusOr<int> Step(int num) override {
    auto done = static_cast<HaltReasonValueType>(HaltReason::kProgramDone);
    if (in_step) { fprintf(stderr, "two threads in Step\n"); exit(66); }
    if (why == done) { if (++idle_calls > 1000) { fprintf(stderr, "livelock\n"); exit(67); } return 0; }
    why = static_cast<HaltReasonValueType>(HaltReason::kNone);
    halt = false;
    if (num <= 0) { if (++idle_calls > 1000) { fprintf(stderr, "livelock\n"); exit(67); } return 0; }
    idle_calls = 0;
    in_step = true;
    int d = 0;
    while (d < num) {
      Scheduler::Get().Yield([this] { return ticks > 0; });
      ticks--;
      ev.push_back({"core", Scheduler::Self()->name});
      pos++;
      d++;
      if (pos >= end) { why = done; break; }
      if (bps.count(pos)) { why = static_cast<HaltReasonValueType>(HaltReason::kSoftwareBreakpoint); break; }
      if (halt) { why = static_cast<HaltReasonValueType>(HaltReason::kUserRequest); break; }
    }
    in_step = false;
    return d;
  }
  absl::Status Run() override { log.push_back("run"); return absl::OkStatus(); }
  absl::Status Wait() override { log.push_back("wait"); return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { Quiet("status"); return RunStatus::kSingleStep; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return why; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override { Quiet("rr " + n); return 1000 + pos; }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    Quiet("wr " + n + " " + std::to_string(v)); return absl::AlreadyExistsError("w");
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    Quiet("db " + n); return reinterpret_cast<DataBuffer*>(16);
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t l) override {
    Quiet("rm " + std::to_string(a) + " " + std::to_string(l)); memset(b, 0x5a, l); return l - 1;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t l) override {
    Quiet("wm " + std::to_string(a) + " " + std::string(static_cast<const char*>(b), l)); return l - 2;
  }
  bool HasBreakpoint(uint64_t a) override { Quiet("hb " + std::to_string(a)); return a == 7; }
  absl::Status SetSwBreakpoint(uint64_t a) override { Quiet("sb " + std::to_string(a)); return absl::OkStatus(); }
  absl::Status ClearSwBreakpoint(uint64_t a) override { Quiet("cb " + std::to_string(a)); return absl::NotFoundError("c"); }
  absl::Status ClearAllSwBreakpoints() override { Quiet("ca"); return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t a) override { Quiet("gi " + std::to_string(a)); return reinterpret_cast<Instruction*>(32); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t a) override { Quiet("gd " + std::to_string(a)); return std::string("dis"); }
};

struct World {
  Core core;
  std::unique_ptr<RenodeCLITop> top;
  std::unique_ptr<CLIForwarder> fwd;
};

// A query through either the forwarder or the top; true if it reached the core exactly
// once, with the arguments given, and the core's answer came back.
static bool Query(World& w, int k, bool f) {
  auto& T = *w.top;
  auto& F = *w.fwd;
  w.core.log.clear();
  bool ok = false;
  std::string want;
  char buf[8] = "xxxxxxx";
  switch (k) {
    case 0: { auto r = f ? F.ReadRegister("pc") : T.CLIReadRegister("pc"); want = "rr pc"; ok = r.ok() && *r == 1000u + w.core.pos; break; }
    case 1: { auto r = f ? F.WriteRegister("x1", 1ULL << 40) : T.CLIWriteRegister("x1", 1ULL << 40); want = "wr x1 1099511627776"; ok = r.code() == absl::StatusCode::kAlreadyExists; break; }
    case 2: { auto r = f ? F.GetRegisterDataBuffer("v1") : T.CLIGetRegisterDataBuffer("v1"); want = "db v1"; ok = r.ok() && *r == reinterpret_cast<DataBuffer*>(16); break; }
    case 3: { auto r = f ? F.ReadMemory(0x123456789, buf, 4) : T.CLIReadMemory(0x123456789, buf, 4); want = "rm 4886718345 4"; ok = r.ok() && *r == 3 && std::string(buf, 8) == std::string("ZZZZxxx\0", 8); break; }
    case 4: { auto r = f ? F.WriteMemory(0x1000, "abcd", 4) : T.CLIWriteMemory(0x1000, "abcd", 4); want = "wm 4096 abcd"; ok = r.ok() && *r == 2; break; }
    case 5: { bool a = f ? F.HasBreakpoint(7) : T.CLIHasBreakpoint(7); want = "hb 7"; ok = a; break; }
    case 6: { bool a = f ? F.HasBreakpoint(8) : T.CLIHasBreakpoint(8); want = "hb 8"; ok = !a; break; }
    case 7: { auto r = f ? F.SetSwBreakpoint(9) : T.CLISetSwBreakpoint(9); want = "sb 9"; ok = r.ok(); break; }
    case 8: { auto r = f ? F.ClearSwBreakpoint(10) : T.CLIClearSwBreakpoint(10); want = "cb 10"; ok = absl::IsNotFound(r); break; }
    case 9: { auto r = f ? F.ClearAllSwBreakpoints() : T.CLIClearAllSwBreakpoints(); want = "ca"; ok = r.ok(); break; }
    case 10: { auto r = f ? F.GetInstruction(11) : T.CLIGetInstruction(11); want = "gi 11"; ok = r.ok() && *r == reinterpret_cast<Instruction*>(32); break; }
    case 11: { auto r = f ? F.GetDisassembly(12) : T.CLIGetDisassembly(12); want = "gd 12"; ok = r.ok() && *r == "dis"; break; }
    case 12: { auto r = f ? F.GetRunStatus() : T.CLIGetRunStatus(); want = "status"; ok = r.ok() && *r == CoreDebugInterface::RunStatus::kSingleStep; break; }
    case 13: { auto r = f ? F.GetLastHaltReason() : T.CLIGetLastHaltReason(); return r.ok() && *r == w.core.why && w.core.log.empty() && !w.core.in_step; }
  }
  return ok && w.core.log.size() == 1 && w.core.log[0] == want;
}

int main(int argc, char** argv) {
  auto& S = Scheduler::Get();
  auto* ren = S.Add("ren");
  auto* cli = S.Add("cli");
  auto* aux = S.Add("aux");
  std::mt19937 rng(argc > 1 ? vh::I(argv[1]) : 1);
  std::unique_ptr<World> w;
  auto settle = [&](vh::Out& o) {
    S.Settle(rng);
    for (auto& [a, b] : w->core.ev) {
      o.open().s(a);
      if (!b.empty() && (isdigit(b[0]) || b[0] == '-')) o.s("n").i(vh::I(b)); else o.s(b);
      o.close();
    }
    w->core.ev.clear();
  };
  auto count = [](const absl::StatusOr<int>& r) {
    if (r.ok()) return std::to_string(*r);
    return std::string(absl::IsUnavailable(r.status()) ? "unavailable" : "error");
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out&) {
    S.AbortAll();
    w = std::make_unique<World>();
    std::string spec = argv[2 + vh::I(a[1]) - 1];  // "bp,bp,...:end"
    size_t c = spec.find(':');
    for (auto b : vh::L("[" + spec.substr(0, c) + "]")) w->core.bps.insert(b);
    w->core.end = vh::I(spec.substr(c + 1));
    w->top = std::make_unique<RenodeCLITop>(&w->core, vh::I(a[2]) == 1);
    w->fwd = std::make_unique<CLIForwarder>(w->top.get());
    // Halt requests with a reason go straight to the core.
    CoreDebugInterface* f = w->fwd.get();
    if (!f->Halt(CoreDebugInterface::HaltReason::kActionPoint).ok() ||
        !f->Halt(CoreDebugInterface::HaltReasonValueType(0x80000001u)).ok() ||
        w->core.log != std::vector<std::string>{"haltr5", "haltv2147483649"}) {
      fprintf(stderr, "halt request lost\n");
      exit(65);
    }
  };
  h["renode"] = [&](const vh::Args& a, vh::Out& o) {
    if (ren->active) { o.s("busy"); return; }
    int n = vh::I(a[1]);
    S.Start(ren, [&, n] { w->core.ev.push_back({"ren", count(w->top->RenodeStep(n))}); });
    settle(o);
  };
  h["step"] = [&](const vh::Args& a, vh::Out& o) {
    if (cli->active) { o.s("busy"); return; }
    int n = vh::I(a[1]);
    bool f = rng() % 2;
    S.Start(cli, [&, n, f] { w->core.ev.push_back({"cli", count(f ? w->fwd->Step(n) : w->top->CLIStep(n))}); });
    settle(o);
  };
  h["run"] = [&](const vh::Args&, vh::Out& o) {
    if (cli->active) { o.s("busy"); return; }
    bool f = rng() % 2;
    S.Start(cli, [&, f] {
      auto st = f ? w->fwd->Run() : w->top->CLIRun();
      w->core.ev.push_back({"cli", st.ok() ? "ok" : absl::IsUnavailable(st) ? "unavailable" : "error"});
    });
    settle(o);
  };
  h["query"] = [&](const vh::Args& a, vh::Out& o) {
    if (cli->active) { o.s("busy"); return; }
    int k = vh::I(a[1]);
    bool f = rng() % 2;
    S.Start(cli, [&, k, f] {
      bool ok = Query(*w, k, f);
      w->core.ev.push_back({"cli", ok ? std::to_string(w->core.pos) : "wrong"});
    });
    settle(o);
  };
  h["halt"] = [&](const vh::Args&, vh::Out& o) {
    if (aux->active) { o.s("busy"); return; }
    bool f = rng() % 2;
    S.Start(aux, [&, f] {
      auto st = f ? w->fwd->Halt() : w->top->CLIHalt();
      w->core.ev.push_back({"aux", st.ok() ? "ok" : "error"});
    });
    settle(o);
  };
  h["conn"] = [&](const vh::Args& a, vh::Out& o) {
    if (aux->active) { o.s("busy"); return; }
    bool b = vh::I(a[1]);
    S.Start(aux, [&, b] { w->top->SetConnected(b); w->core.ev.push_back({"aux", "ok"}); });
    settle(o);
  };
  h["tick"] = [&](const vh::Args&, vh::Out& o) {
    if (!w->core.in_step) { o.s("busy"); return; }
    w->core.ticks = 1;
    settle(o);
  };
  int r = vh::Main(h);
  S.AbortAll();
  fflush(stdout);
  _Exit(r);
}
