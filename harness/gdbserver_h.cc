// The machine of GdbServer.tla: the server, its core and a client that is
// connected over the loopback interface.  Argument: the configurations.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <cstring>
#include <fstream>
#include <memory>
#include <set>
#include <thread>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "harness.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"

using namespace vh;
using namespace mpact::sim;
using generic::AccessType;
using generic::CoreDebugInterface;
using generic::DataBuffer;
using util::gdbserver::GdbServer;

struct Reg {
  int num, size, bits;
  bool bad;
  std::string name;
};
struct Cfg {
  std::vector<Reg> regs;
  int gpr0 = 0, gpr1 = 0, evpc = 0, evaddr = 0;
  std::string reason, access, file, host, xml;
};
static std::vector<Cfg> cfgs;

class Core : public CoreDebugInterface {
 public:
  explicit Core(const Cfg& c) : cfg(c) {
    for (int i = 0; i < 16; i++) mem[i] = i + 1;
    for (size_t i = 0; i < c.regs.size(); i++) {
      auto* d = dbf.Allocate<uint8_t>(c.regs[i].size);
      for (int k = 0; k < c.regs[i].size; k++)
        d->Set<uint8_t>(k, c.regs[i].name == "pc" ? 0 : 16 * (i + 1) + k + 1);
      db.push_back(d);
    }
  }
  ~Core() override {
    for (auto* d : db) d->DecRef();
  }
  int Ix(const std::string& n) {
    for (size_t i = 0; i < cfg.regs.size(); i++)
      if (cfg.regs[i].name == n && !cfg.regs[i].bad) return i;
    return -1;
  }
  uint64_t Pc() { return *ReadRegister("pc"); }
  void One() {
    uint64_t p = Pc();
    if (p < 32) p += 4;
    (void)WriteRegister("pc", p);
    last = p >= 32 ? "done" : static_cast<int>(p) == cfg.evpc ? cfg.reason : "none";
  }
  absl::Status Halt() override { return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
  absl::StatusOr<int> Step(int n) override {
    if (running) return absl::FailedPreconditionError("running");
    for (int i = 0; i < n; i++) One();
    return n;
  }
  absl::Status Run() override {
    if (running) return absl::FailedPreconditionError("running");
    running = true;
    return absl::OkStatus();
  }
  absl::Status Wait() override {
    while (running) {
      One();
      if (last == "none" && bps.count(Pc())) last = "sw";
      running = last == "none";
    }
    return absl::OkStatus();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    return running ? RunStatus::kRunning : RunStatus::kHalted;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (running) return absl::FailedPreconditionError("running");
    static const std::map<std::string, HaltReason> m = {
        {"sw", HaltReason::kSoftwareBreakpoint}, {"hw", HaltReason::kHardwareBreakpoint},
        {"user", HaltReason::kUserRequest},      {"semi", HaltReason::kSemihostHaltRequest},
        {"data", HaltReason::kDataWatchPoint},   {"action", HaltReason::kActionPoint},
        {"done", HaltReason::kProgramDone},      {"err", HaltReason::kSimulatorError},
        {"none", HaltReason::kNone},             {"custom", HaltReason::kUserSpecifiedMin}};
    return static_cast<HaltReasonValueType>(m.at(last));
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    int i = Ix(n);
    if (i < 0) return absl::NotFoundError("no register");
    uint64_t v = 0;
    for (int k = 0; k < 8 && k < cfg.regs[i].size; k++)
      v |= uint64_t{db[i]->Get<uint8_t>(k)} << 8 * k;
    return v;
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    int i = Ix(n);
    if (i < 0) return absl::NotFoundError("no register");
    for (int k = 0; k < 8 && k < cfg.regs[i].size; k++) db[i]->Set<uint8_t>(k, v >> 8 * k);
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    int i = Ix(n);
    if (i < 0) return absl::NotFoundError("no register");
    return db[i];
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (a < 256 || a >= 272) return absl::OutOfRangeError("no memory");
    n = std::min<size_t>(n, 272 - a);
    std::memcpy(b, mem + (a - 256), n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (a < 256 || a >= 272) return absl::OutOfRangeError("no memory");
    n = std::min<size_t>(n, 272 - a);
    std::memcpy(mem + (a - 256), b, n);
    return n;
  }
  bool HasBreakpoint(uint64_t a) override { return bps.count(a); }
  absl::Status Bp(uint64_t a, bool set) {
    if (a >= 4096) return absl::UnimplementedError("not there");
    if (a % 2) return absl::InvalidArgumentError("odd");
    if (set) bps.insert(a);
    else bps.erase(a);
    return absl::OkStatus();
  }
  absl::Status SetSwBreakpoint(uint64_t a) override { return Bp(a, true); }
  absl::Status ClearSwBreakpoint(uint64_t a) override { return Bp(a, false); }
  uint64_t GetSwBreakpointInfo() const override { return 0x77; }
  absl::Status ClearAllSwBreakpoints() override {
    bps.clear();
    return absl::OkStatus();
  }
  void GetWatchpointInfo(uint64_t& a, AccessType& t) override {
    a = cfg.evaddr;
    t = cfg.access == "watch"    ? AccessType::kStore
        : cfg.access == "rwatch" ? AccessType::kLoad
        : cfg.access == "awatch" ? AccessType::kLoadStore
                                 : AccessType::kNone;
  }
  absl::StatusOr<generic::Instruction*> GetInstruction(uint64_t) override {
    return absl::UnimplementedError("");
  }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override {
    return absl::UnimplementedError("");
  }
  std::string GetExecutableFileName() override { return cfg.file; }

  const Cfg& cfg;
  generic::DataBufferFactory dbf;
  std::vector<DataBuffer*> db;
  uint8_t mem[16];
  std::set<uint64_t> bps;
  std::string last = "none";
  bool running = false;
};

class Info : public generic::DebugInfo {
 public:
  explicit Info(const Cfg& c) : cfg(c) {
    for (auto& r : c.regs) map_[r.num] = r.name;
  }
  const DebugRegisterMap& debug_register_map() const override { return map_; }
  int GetFirstGpr() const override { return cfg.gpr0; }
  int GetLastGpr() const override { return cfg.gpr1; }
  int GetPcRegister() const override { return 32; }
  int GetGprWidth() const override { return 64; }
  int GetPcWidth() const override { return 64; }
  int GetRegisterByteWidth(int n) const override {
    for (auto& r : cfg.regs)
      if (r.num == n) return r.size;
    return 0;
  }
  std::string_view GetGdbTargetXml() const override { return cfg.xml; }
  std::string_view GetLLDBHostInfo() const override { return cfg.host; }
  const Cfg& cfg;

 private:
  DebugRegisterMap map_;
};

struct World {
  const Cfg& cfg;
  Core core;
  Info info;
  std::vector<CoreDebugInterface*> cores;
  std::unique_ptr<GdbServer> server;
  std::thread th;
  std::atomic<bool> returned{true};
  int fd = -1;
  bool noack = false;
  explicit World(const Cfg& c) : cfg(c), core(c), info(c), cores{&core} {
    server = std::make_unique<GdbServer>(absl::MakeSpan(cores), info);
  }
  ~World() { Close(); }
  void Close() {
    if (fd >= 0) close(fd);
    fd = -1;
    if (th.joinable()) th.join();
  }
};
static std::unique_ptr<World> w;

// -2: nothing is sent, -1: the connection is closed.
static int Get(int ms = 8000) {
  // The server's next segment waits for the acknowledgement of its last one.
  int one = 1;
  setsockopt(w->fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one));
  pollfd p = {w->fd, POLLIN, 0};
  int n = poll(&p, 1, ms);
  if (n <= 0) return -2;
  unsigned char c;
  return read(w->fd, &c, 1) == 1 ? c : -1;
}
static void Put(const std::string& t) {
  size_t i = 0;
  while (i < t.size()) {
    ssize_t n = send(w->fd, t.data() + i, t.size() - i, MSG_NOSIGNAL);
    if (n <= 0) return;
    i += n;
  }
}
static int Digit(int c) {
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
// A packet, without what is around it.
static bool GetPacket(std::string* t, std::string* why) {
  t->clear();
  int c = Get();
  if (c != '$') {
    *why = c == -1 ? "closed" : c == -2 ? "no reply" : std::string("no packet but ") + char(c);
    return false;
  }
  uint8_t sum = 0;
  while (true) {
    c = Get();
    if (c < 0) {
      *why = "no end of the packet";
      return false;
    }
    if (c == '#') break;
    sum += c;
    *t += c;
  }
  int a = Digit(Get()), b = Digit(Get());
  if (a < 0 || b < 0 || a * 16 + b != sum) {
    *why = "checksum";
    return false;
  }
  return true;
}
static std::string HexOf(const std::string& list) {
  std::string r;
  if (list.size() <= 2) return r;
  char b[4];
  for (auto v : L(list)) {
    snprintf(b, 4, "%02llx", v & 255);
    r += b;
  }
  return r;
}
static std::string X(const std::string& v) {
  char b[40];
  if (v == "-1") return "ffffffffffffffff";
  snprintf(b, 40, "%llx", U(v));
  return b;
}
static std::string Tid(const std::string& t) {
  return t == "-2" ? "" : ";thread:" + t + ";";
}
static bool UnHex(const std::string& t, std::vector<int>* v) {
  if (t.size() % 2) return false;
  for (size_t i = 0; i < t.size(); i += 2) {
    int a = Digit(t[i]), b = Digit(t[i + 1]);
    if (a < 0 || b < 0) return false;
    v->push_back(a * 16 + b);
  }
  return true;
}
static std::vector<std::string> Split(const std::string& t, char c) {
  std::vector<std::string> r;
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, c)) r.push_back(x);
  return r;
}
static std::string Command(const Args& a) {
  const std::string& k = a[0];
  if (k == "?" || k == "D" || k == "k" || k == "vCont?") return k;
  if (k == "m") return "m" + X(a[2]) + "," + X(a[3]);
  if (k == "M") return "M" + X(a[2]) + "," + X(a[3]) + ":" + HexOf(a[4]);
  if (k == "g") return "g" + Tid(a[2]);
  if (k == "G") return "G" + HexOf(a[3]) + Tid(a[2]);
  if (k == "p") return "p" + X(a[3]) + Tid(a[2]);
  if (k == "P") return "P" + X(a[3]) + "=" + HexOf(a[4]) + Tid(a[2]);
  if (k == "c") return "c" + (a[3] == "-1" ? "" : a[3] == "-2" ? "zz" : X(a[3])) + Tid(a[2]);
  if (k == "s") return "s" + Tid(a[2]);
  if (k == "vCont") {
    std::string r = "vCont", t;
    for (char c : a[2])
      if (c != '[' && c != ']') t += c;
    auto p = Split(t, ',');
    for (size_t i = 0; i + 1 < p.size(); i += 2)
      r += ";" + p[i] + (p[i + 1] == "-2" ? "" : p[i + 1] == "-1" ? ":-1" : ":" + X(p[i + 1]));
    return r;
  }
  if (k == "H") return "H" + a[2] + (a[3] == "-1" ? "-1" : X(a[3]));
  if (k == "Z" || k == "z") return k + a[2] + "," + X(a[3]) + ",4";
  if (k == "q" || k == "Q") return k + Text(a[2]);
  if (k == "xfer") return "qXfer:features:read:target.xml:" + X(a[2]) + "," + X(a[3]);
  return Text(a[2]);  // raw
}
static void Reply(const Args& a, std::string t, Out& o) {
  const std::string& k = a[0];
  std::vector<int> v;
  o.open();
  if (t.empty()) {
    o.s("empty");
  } else if (t.substr(0, 2) == "E." ||
             (t.size() == 3 && t[0] == 'E' && isxdigit(t[1]) && isxdigit(t[2]))) {
    o.s("err");
  } else if (t == "OK") {
    o.s("ok");
  } else if ((k == "m" || k == "g" || k == "p") && UnHex(t, &v)) {
    o.s("hex").list(v);
  } else if (k == "?" || k == "c" || k == "s" || k == "vCont") {
    bool good = t[0] == 'T' && t.size() >= 3 && (t.size() == 3 || t.back() == ';');
    std::string why;
    long long at = -1, pc = -1;
    for (auto& x : Split(good ? t.substr(3) : "", ';')) {
      auto q = x.find(':');
      if (q == std::string::npos) {
        good = false;
        break;
      }
      std::string key = x.substr(0, q), val = x.substr(q + 1);
      v.clear();
      if (key == "thread") {
        good = good && val == "1";
      } else if (key == "swbreak" || key == "hwbreak") {
        good = good && val.empty() && why.empty();
        why = key;
      } else if (key == "watch" || key == "rwatch" || key == "awatch") {
        good = good && !val.empty() && val.size() < 9 && why.empty();
        why = key;
        for (char c : val) good = good && Digit(c) >= 0;
        at = good ? strtoll(val.c_str(), nullptr, 16) : -1;
      } else if (key == "20" && pc < 0 && UnHex(val, &v) && v.size() == 8) {
        pc = v[0] + 256 * v[1] + 65536 * v[2];
        for (int i = 3; i < 8; i++) good = good && v[i] == 0;
      } else {
        good = false;
      }
    }
    if (t == "W00") o.s("exit");
    else if (good) o.s("stop").s(t.substr(1, 2)).s(why).i(at).i(pc);
    else o.s("text").s(t);
  } else if (k == "q" && Text(a[2]).substr(0, 9) == "Supported") {
    o.s("list");
    for (auto& x : Split(t, ';')) o.s(x);
  } else if (k == "q" && a[2] == "HostInfo") {
    o.s("host").open();
    for (auto& x : Split(t, ';')) {
      auto q = x.find(':');
      std::string key = x.substr(0, q), val = q == std::string::npos ? "?" : x.substr(q + 1);
      v.clear();
      for (auto* h : {"triple", "distribution_id", "os_build", "hostname", "os_kernel"}) {
        if (key == h) {
          if (!UnHex(val, &v)) key = "not hexadecimal";
          val = std::string(v.begin(), v.end());
          break;
        }
      }
      o.open().s(key).s(val).close();
    }
    o.close();
  } else if (k == "xfer" && (t[0] == 'l' || t[0] == 'm')) {
    std::string d;
    bool good = true;
    for (size_t i = 1; i < t.size(); i++) {
      if (t[i] == '}' && i + 1 < t.size()) d += t[++i] ^ 0x20;
      else if (t[i] == '*' || t[i] == '$' || t[i] == '}') good = false;
      else d += t[i];
    }
    auto off = U(a[2]);
    o.s("xfer").s(t.substr(0, 1)).i(d.size());
    o.b(good && (d.empty() || (off < w->cfg.xml.size() && w->cfg.xml.substr(off, d.size()) == d)));
  } else {
    o.s("text").s(t);
  }
  o.close();
}
static void Packet(const Args& a, Out& o) {
  int f = I(a[1]);
  std::string body;
  for (char c : Command(a)) {
    if (f == 30 && body.size() % 3 != 0) body += '}', body += c ^ 0x20;
    else body += c;
  }
  uint8_t sum = 0;
  for (char c : body) sum += c;
  char b[4];
  snprintf(b, 4, f == 20 ? "%02X" : "%02x", f == -1 ? (sum + 1) & 255 : sum);
  Put("$" + body + "#" + (f == -2 ? "zz" : b));
  std::string ack, why, t, t2;
  auto fail = [&](const std::string& x) { o.s(ack).i(0).open().s("bad").s(x).close().b(false); };
  if (!w->noack) {
    int c = Get();
    if (c == -1) return fail("closed");
    if (c == -2) return fail("no acknowledgement");
    ack = std::string(1, c);
    if (c == '-') {
      o.s(ack).i(0).open().s("none").close().b(true);
      return;
    }
  }
  bool ends = a[0] == "D" || a[0] == "k" || (f == 5 && !w->noack);
  if (a[0] == "k") {
    bool open = Get() != -1;
    o.s(ack).i(0).open().s("none").close().b(open);
    if (!open) w->Close();
    return;
  }
  int n = 0;
  do {
    if (!GetPacket(&t2, &why)) return fail(why);
    if (n++ && t2 != t) return fail("another reply");
    t = t2;
    if (!w->noack) Put(f >= n && f <= 5 ? "-" : "+");
  } while (!w->noack && f >= n && f < 5 && n < 9);
  for (; f == 5 && !w->noack && n < 5; n++) {
    if (!GetPacket(&t2, &why)) return fail(why);
    if (t2 != t) return fail("another reply");
    Put("-");
  }
  bool open = true;
  if (ends) open = Get() != -1;
  o.s(ack).i(n);
  Reply(a, t, o);
  o.b(open);
  if (!open) w->Close();
  if (a[0] == "Q" && Text(a[2]) == "StartNoAckMode" && t == "OK") w->noack = true;
}

int main(int, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  std::ifstream in(argv[1]);
  std::string line;
  while (std::getline(in, line)) {
    std::stringstream ss(line);
    std::string k, t;
    ss >> k;
    if (k == "cfg") cfgs.emplace_back();
    auto& c = cfgs.back();
    if (k == "reg") {
      Reg r;
      ss >> r.num >> r.name >> r.size >> r.bits >> r.bad;
      c.regs.push_back(r);
    } else if (k == "gpr") {
      ss >> c.gpr0 >> c.gpr1;
    } else if (k == "ev") {
      ss >> c.evpc >> c.reason >> c.access >> c.evaddr;
    } else if (k == "file") {
      ss >> c.file;
    } else if (k == "host") {
      ss >> c.host;
      if (c.host == "-") c.host.clear();
    } else if (k == "xml") {
      ss >> t;
      std::vector<int> v;
      UnHex(t, &v);
      c.xml = std::string(v.begin(), v.end());
    }
  }
  std::map<std::string, Handler> h;
  h["reset"] = [&](const Args& a, Out&) {
    if (w) {
      w->Close();
      w->server.reset();
    }
    w = std::make_unique<World>(cfgs[I(a[1]) - 1]);
  };
  h["connect"] = [&](const Args& a, Out& o) {
    static int next = getpid() * 37;
    if (w->th.joinable()) w->Close();
    for (int attempt = 0; attempt < 30; attempt++) {
      int port = 20000 + (next++ % 10000);
      w->returned = false;
      w->th = std::thread([port] {
        w->server->Connect(port);
        w->returned = true;
      });
      sockaddr_in sa = {};
      sa.sin_family = AF_INET;
      sa.sin_port = htons(port);
      sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      for (int i = 0; i < 20000 && w->fd < 0 && !w->returned; i++) {
        int fd = socket(AF_INET, SOCK_STREAM, 0);
        if (connect(fd, reinterpret_cast<sockaddr*>(&sa), sizeof(sa)) == 0) {
          w->fd = fd;
          break;
        }
        close(fd);
        usleep(100);
      }
      if (w->fd >= 0) break;
      if (!w->returned) {
        printf("stuck\n");
        exit(76);
      }
      w->th.join();  // the port is taken
    }
    if (w->fd < 0) exit(76);
    int one = 1;
    setsockopt(w->fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    w->noack = false;
    Put(a[1]);
    // A server that doesn't like the greeting closes the connection.
    bool open = a[1] == "+";
    if (!open && Get() != -1) open = true;
    if (!open) w->Close();
    o.b(open);
  };
  h["hangup"] = [&](const Args&, Out&) { w->Close(); };
  h["big"] = [&](const Args& a, Out& o) {
    std::string t(I(a[1]), 'm');
    uint8_t sum = 0;
    for (char c : t) sum += c;
    char b[4];
    snprintf(b, 4, "%02x", sum);
    Put("$" + t + "#" + b);
    std::string why;
    bool open = true;
    if (!w->noack) {
      int c = Get();
      open = c == '+' || c == '-';
      if (c == '-') {
        o.b(true);
        return;
      }
    }
    if (open) open = GetPacket(&t, &why);
    if (open && !w->noack) Put("+");
    if (!open) w->Close();
    o.b(open);
  };
  h["peek"] = [&](const Args&, Out& o) {
    o.open();
    for (auto* d : w->core.db) o.list(d->Get<uint8_t>());
    o.close();
    o.list(w->core.mem).list(w->core.bps).s(w->core.last);
  };
  h["destroy"] = [&](const Args&, Out& o) {
    std::vector<int> fds;
    bool good = true;
    w->Close();
    for (int i = 0; i < 8; i++) fds.push_back(open("/dev/null", O_RDONLY));
    w->server.reset();
    for (int fd : fds) good = good && fcntl(fd, F_GETFD) >= 0;
    for (int fd : fds) close(fd);
    o.b(good);
  };
  for (auto* k : {"?", "m", "M", "g", "G", "p", "P", "c", "s", "vCont", "vCont?", "H", "Z", "z", "q", "Q",
                  "xfer", "D", "k", "raw"})
    h[k] = Packet;
  int r = Main(h);
  if (w) {
    w->Close();
    w->server.reset();
  }
  return r;
}
