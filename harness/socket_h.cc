// Socket streams and the socket command line interface.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "harness.h"
#include "mpact/sim/generic/debug_command_shell_interface.h"
#include "mpact/sim/util/renode/socket_cli.h"
#include "mpact/sim/util/renode/socket_streambuf.h"
using mpact::sim::generic::DebugCommandShellInterface;
using mpact::sim::util::renode::SocketCLI;
using mpact::sim::util::renode::SocketStreambuf;

// Closing what is not open (any more) may close what somebody else opened meanwhile.
static std::atomic<int> bad_closes{0};
extern "C" int close(int fd) {
  int r = syscall(SYS_close, fd);
  if (r != 0 && errno == EBADF && fd >= 0) bad_closes++;
  return r;
}

static std::set<int> Fds() {
  std::set<int> r;
  for (int i = 0; i < 512; i++)
    if (fcntl(i, F_GETFD) >= 0) r.insert(i);
  return r;
}

struct Stream {
  int peer = -1;
  std::set<int> before;
  std::unique_ptr<SocketStreambuf> buf;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<std::ostream> os;
  Stream() {
    before = Fds();
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) exit(76);
    peer = sv[1];
    buf = std::make_unique<SocketStreambuf>(sv[0]);
    is = std::make_unique<std::istream>(buf.get());
    os = std::make_unique<std::ostream>(buf.get());
  }
  // Returns whether exactly the right descriptors were closed.
  bool End() {
    is.reset();
    os.reset();
    // the number of a descriptor that was closed early is taken by somebody else
    int other = dup(2);
    buf.reset();
    bool ok = fcntl(other, F_GETFD) >= 0;
    close(other);
    if (peer >= 0) close(peer);
    return ok && Fds() == before && bad_closes == 0;
  }
  static std::string Bytes(const std::string& l) {
    std::string r;
    if (l != "[]")
      for (auto c : vh::L(l)) r += char(c);
    return r;
  }
  std::string Received() {
    std::string r;
    char b[256];
    ssize_t n;
    while (peer >= 0 && (n = recv(peer, b, sizeof b, MSG_DONTWAIT)) > 0) r.append(b, n);
    return r;
  }
  void Handle(const vh::Args& a, vh::Out& o) {
    is->clear();
    os->clear();
    if (a[0] == "send") {
      auto b = Bytes(a[1]);
      if (send(peer, b.data(), b.size(), MSG_NOSIGNAL) != (ssize_t)b.size()) o.s("send");
    } else if (a[0] == "end") {
      shutdown(peer, SHUT_WR);
    } else if (a[0] == "gone") {
      close(peer);
      peer = -1;
    } else if (a[0] == "break") {  // unread data is lost
      os->put('x');
      close(peer);
      peer = -1;
    } else if (a[0] == "get") {
      o.i(is->get());
    } else if (a[0] == "peek") {
      o.i(is->peek());
    } else if (a[0] == "line") {
      std::string l;
      std::getline(*is, l);
      o.open();
      for (unsigned char c : l) o.i(c);
      o.close().i(is->eof() ? 0 : 1);
    } else if (a[0] == "put") {
      auto b = Bytes(a[1]);
      os->write(b.data(), b.size());
      os->flush();
      o.i(os->good());
      auto r = Received();
      o.open();
      for (unsigned char c : r) o.i(c);
      o.close();
    } else if (a[0] == "close") {
      buf->overflow(EOF);
    }
  }
};

// A shell that echoes lines until "quit" or the end of the input.
struct Shell : DebugCommandShellInterface {
  void AddCore(const CoreAccess&) override {}
  void AddCores(const std::vector<CoreAccess>&) override {}
  void AddCommand(absl::string_view, CommandFunction) override {}
  void Run(std::istream& is, std::ostream& os) override {
    std::string l;
    while (is.good() && os.good()) {
      std::getline(is, l);
      if (!is.good() || l == "quit") return;
      if (l.size() > 100000) {
        fprintf(stderr, "endless line\n");
        _exit(75);
      }
      os << "<" << l << ">" << std::endl;
    }
  }
};

struct Cli {
  Shell shell;
  std::set<int> before;
  std::unique_ptr<SocketCLI> cli;
  std::mutex mu;
  std::vector<int> cbs;
  int client = -1, port = 0, busy = -1;
  std::vector<int> others;
  size_t Cbs() {
    std::lock_guard<std::mutex> l(mu);
    return cbs.size();
  }
  ~Cli() { End(); }
  template <typename F>
  bool Wait(F f) {
    for (int i = 0; i < 5000; i++) {
      if (f()) return true;
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    return false;
  }
  static int Listen(int* port) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in ad{};
    ad.sin_family = AF_INET;
    ad.sin_addr.s_addr = htonl(INADDR_ANY);
    // Ports below those that the kernel hands out, different ones in each process.
    static unsigned next = getpid() * 131u;
    for (int i = 0; i < 1000; i++) {
      *port = 20000 + next++ % 12000;
      ad.sin_port = htons(*port);
      if (bind(fd, (sockaddr*)&ad, sizeof ad) == 0 && listen(fd, 1) == 0) return fd;
    }
    exit(76);
  }
  void Make(int p) {
    cbs.clear();
    port = p;
    cli = std::make_unique<SocketCLI>(p, shell, [this](bool c) {
      std::lock_guard<std::mutex> l(mu);
      cbs.push_back(c);
    });
  }
  std::string Read(char until, bool* eof) {
    std::string r;
    *eof = false;
    while (client >= 0) {
      int one = 1;  // no delayed acknowledgements
      setsockopt(client, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
      pollfd p{client, POLLIN, 0};
      if (poll(&p, 1, 5000) <= 0) return r + "timeout";
      char c;
      ssize_t n = recv(client, &c, 1, 0);
      if (n <= 0) {
        *eof = true;
        return r;
      }
      r += c;
      if (c == until) return r;
    }
    return r;
  }
  void Out(vh::Out& o, const std::string& got, bool eof, bool fds) {
    std::lock_guard<std::mutex> l(mu);
    o.list(cbs).i(cli && cli->good() ? 1 : 0).open();
    for (unsigned char c : got) o.i(c);
    o.close().i(eof ? 1 : 0).i(fds ? 1 : 0);
    cbs.clear();
  }
  // The descriptors released by the session are taken by somebody else.
  void Others() {
    for (int i = 0; i < 6; i++) others.push_back(dup(2));
  }
  bool CheckOthers() {
    bool ok = true;
    for (int f : others) ok = ok && fcntl(f, F_GETFD) >= 0;
    for (int f : others) close(f);
    others.clear();
    return ok;
  }
  void Done() {
    if (!Wait([&] { return Cbs() > 0 && !cli->good(); })) fprintf(stderr, "no end of the session\n");
  }
  void Drop() {
    if (client >= 0) close(client);
    client = -1;
  }
  bool End() {
    cli.reset();
    Drop();
    if (busy >= 0) close(busy);
    busy = -1;
    return CheckOthers();
  }
  void Handle(const vh::Args& a, vh::Out& o) {
    std::string got;
    bool eof = false, fds = true;
    if (a[0] == "new") {
      before = Fds();
      for (int i = 0; i < 8 && !(cli && cli->good()); i++) {
        int p;
        int fd = Listen(&p);
        close(fd);
        cli.reset();
        Make(p);
      }
    } else if (a[0] == "newbad") {
      if (vh::I(a[1])) {
        int p;
        busy = Listen(&p);
        before = Fds();
        Make(p);
      } else {
        before = Fds();
        Make(-1);
      }
    } else if (a[0] == "connect") {
      client = socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in ad{};
      ad.sin_family = AF_INET;
      ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      ad.sin_port = htons(port);
      if (connect(client, (sockaddr*)&ad, sizeof ad)) o.s("cannot connect");
      got = Read('\n', &eof);
    } else if (a[0] == "say") {
      auto b = Stream::Bytes(a[1]) + "\r\n";
      send(client, b.data(), b.size(), MSG_NOSIGNAL);
      got = Read('\n', &eof);
    } else if (a[0] == "quit") {
      send(client, "quit\r\n", 6, MSG_NOSIGNAL);
      Done();
      got = Read(0, &eof);
      Drop();
      Others();
    } else if (a[0] == "hang" || a[0] == "abort") {
      if (a[0] == "abort") {  // reset the connection
        linger l{1, 0};
        setsockopt(client, SOL_SOCKET, SO_LINGER, &l, sizeof l);
      }
      Drop();
      Done();
      // (the thread may still be closing its descriptors)
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      Others();
    } else if (a[0] == "destroy") {
      bool running = client >= 0;
      cli.reset();
      if (running) got = Read(0, &eof);
      Drop();
      fds = CheckOthers() && Fds() == before && bad_closes == 0;
      return Out(o, got, eof, fds);
    }
    Out(o, got, eof, fds);
  }
};

int main() {
  alarm(850);
  std::unique_ptr<Stream> st;
  std::unique_ptr<Cli> cli;
  // What destruction closed wrongly is reported by the next operation.
  bool bad = false;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      if (st) bad |= !st->End();
      if (cli) bad |= !cli->End();
      st.reset();
      cli.reset();
      if (a[1] == "stream") st = std::make_unique<Stream>();
      else cli = std::make_unique<Cli>();
      if (bad) o.s("descriptors of the previous behaviour");
      bad = false;
      return;
    }
    if (st) st->Handle(a, o);
    else cli->Handle(a, o);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "send", "end", "gone", "break", "get", "peek", "line", "put", "close", "new", "newbad",
                 "connect", "say", "quit", "hang", "abort", "destroy"})
    h[n] = gen;
  return vh::Main(h);
}
