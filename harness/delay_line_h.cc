// Drives FunctionDelayLine and a DelayLine of a custom record through the public API.
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
using namespace mpact::sim::generic;

static std::vector<int> fired;
static int next_id;

struct Line {
  virtual ~Line() = default;
  virtual int Add(int lat, int id, int re) = 0;
  virtual DelayLineInterface* dl() = 0;
};
static Line* cur;

struct FnLine : Line {
  FunctionDelayLine d;
  explicit FnLine(int z) : d(z) {}
  FnLine() {}
  int Add(int lat, int id, int re) override {
    return d.Add(lat, [id, re]() {
      fired.push_back(id);
      if (re > 0) { int n = next_id++; cur->Add(re, n, 0); }
    });
  }
  DelayLineInterface* dl() override { return &d; }
};
struct Rec {
  int* payload;
  int re;
  Rec(int id, int r) : payload(new int(id)), re(r) {}
  Rec(const Rec& o) : payload(new int(*o.payload)), re(o.re) {}
  Rec& operator=(const Rec& o) { if (this != &o) { delete payload; payload = new int(*o.payload); re = o.re; } return *this; }
  ~Rec() { delete payload; }
  void Apply() {
    int id = *payload;
    int r = re;
    fired.push_back(id);
    if (r > 0) { int n = next_id++; cur->Add(r, n, 0); }
  }
};
struct RecLine : Line {
  DelayLine<Rec> d;
  explicit RecLine(int z) : d(z) {}
  RecLine() {}
  int Add(int lat, int id, int re) override { return d.Add(lat, id, re); }
  DelayLineInterface* dl() override { return &d; }
};

int main(int argc, char** argv) {
  bool rec = argc > 1 && std::string(argv[1]) == "rec";
  std::unique_ptr<Line> line;
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) {
         int z = vh::I(a[1]);
         if (z == 0) line = rec ? std::unique_ptr<Line>(new RecLine()) : std::unique_ptr<Line>(new FnLine());
         else line = rec ? std::unique_ptr<Line>(new RecLine(z)) : std::unique_ptr<Line>(new FnLine(z));
         cur = line.get();
         next_id = 1;
         o.b(line->dl()->IsEmpty());
       }},
      {"add", [&](const vh::Args& a, vh::Out& o) {
         int id = next_id++;
         int n = line->Add(vh::I(a[1]), id, vh::I(a[2]));
         o.i(id).i(n).b(line->dl()->IsEmpty());
       }},
      {"advance", [&](const vh::Args& a, vh::Out& o) {
         fired.clear();
         int n = line->dl()->Advance();
         o.list(fired).i(n).b(line->dl()->IsEmpty());
       }},
  });
}
