// ResourceBitSet (mode "bits") and SimpleResourcePool (mode "pool").
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
using namespace mpact::sim::generic;

static std::vector<int> Members(const ResourceBitSet& b) {
  std::vector<int> r;
  for (int p = 0; b.FindNextSetBit(&p) && r.size() < 5000; p++) r.push_back(p);
  return r;
}

int Bits() {
  std::unique_ptr<ResourceBitSet> x[4];
  auto obs = [&](vh::Out& o) {
    for (int i = 1; i <= 3; i++) {
      int f = -7;
      if (!x[i]->FindFirstSetBit(&f)) f = f == -7 ? -1 : -2;
      o.open().list(Members(*x[i])).i(x[i]->GetOnesCount()).i(f).open();
      for (int j = 1; j <= 3; j++) o.b(x[i]->IsIntersectionNonEmpty(*x[j]));
      o.close().close();
    }
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args&, vh::Out& o) {
    for (int i = 1; i <= 3; i++) x[i] = std::make_unique<ResourceBitSet>();
    obs(o);
  };
  auto def = [&](const char* n, std::function<void(int, int)> f) {
    h[n] = [&, f](const vh::Args& a, vh::Out& o) { f(vh::I(a[1]), vh::I(a[2])); obs(o); };
  };
  def("set", [&](int i, int b) { x[i]->Set(b); });
  def("or", [&](int i, int j) { x[i]->Or(*x[j]); });
  def("andnot", [&](int i, int j) { x[i]->AndNot(*x[j]); });
  def("assign", [&](int i, int j) { *x[i] = *x[j]; });
  def("copy", [&](int i, int j) { x[i] = std::make_unique<ResourceBitSet>(*x[j]); });
  def("move", [&](int i, int j) { auto t = std::make_unique<ResourceBitSet>(std::move(*x[j])); x[i] = std::move(t); });
  def("resize", [&](int i, int n) { x[i]->Resize(n); });
  def("new", [&](int i, int n) { x[i] = std::make_unique<ResourceBitSet>(n); });
  h["next"] = [&](const vh::Args& a, vh::Out& o) {
    int p = vh::I(a[2]), q = p;
    if (!x[vh::I(a[1])]->FindNextSetBit(&p)) p = p == q ? -1 : -2;
    o.i(p);
  };
  return vh::Main(h);
}

int Pool() {
  std::unique_ptr<SimpleResourcePool> pool, other;
  std::unique_ptr<SimpleResourceDelayLine> line;
  std::vector<SimpleResourceSet*> sets;
  std::vector<std::unique_ptr<SimpleResourceOperand>> ops;
  auto name = [](long long n) { return "r" + std::to_string(n); };
  auto num = [](const std::string& s) { return s[0] == 'r' ? vh::I(s.substr(1)) : -5; };
  // "[r1, r2]" -> names
  auto parse = [&](const std::string& s, vh::Out& o) {
    o.open();
    if (s.size() < 2 || s[0] != '[' || s.back() != ']') { o.s(s).close(); return; }
    std::string t;
    for (char c : s.substr(1, s.size() - 2)) if (c != ' ') t += c;
    std::stringstream ss(t);
    while (std::getline(ss, t, ',')) o.i(num(t));
    o.close();
  };
  auto obs = [&](long long ret, vh::Out& o) {
    o.i(ret).i(pool->width());
    parse(pool->ReservedAsString(), o);
    o.open();
    for (unsigned i = 0; i <= pool->width(); i++) {
      auto* r = pool->GetResource(i);
      if (r == nullptr) break;
      bool ok = r->pool() == pool.get() && Members(r->resource_bit()) == std::vector<int>{(int)i} &&
                pool->GetResource(r->name()) == r && pool->IsFree(r) == r->IsFree();
      o.open().i(ok ? num(r->name()) : -9).i(r->index()).b(r->IsFree()).close();
    }
    o.close().open();
    for (auto* st : sets) {
      o.open();
      parse(st->AsString(), o);
      SimpleResourceOperand op(st, 1);
      if (st->IsFree() != pool->IsFree(st) || op.IsFree() != st->IsFree() || op.AsString() != st->AsString()) o.s("inconsistent");
      o.b(st->IsFree()).close();
    }
    o.close();
  };
  std::map<std::string, vh::Handler> h;
  h["reset"] = [&](const vh::Args& a, vh::Out& o) {
    ops.clear();
    sets.clear();
    line = std::make_unique<SimpleResourceDelayLine>(4);
    pool = std::make_unique<SimpleResourcePool>("pool", vh::I(a[1]));
    other = std::make_unique<SimpleResourcePool>("pool", vh::I(a[1]) + 4);
    other->GetOrAddResource(name(0));
    obs(0, o);
  };
  auto idx = [&](SimpleResource* r) { return r ? r->index() + 1 : 0; };
  h["add"] = [&](const vh::Args& a, vh::Out& o) { auto r = pool->AddResource(name(vh::I(a[1]))).ok(); obs(r, o); };
  h["getadd"] = [&](const vh::Args& a, vh::Out& o) { auto r = idx(pool->GetOrAddResource(name(vh::I(a[1])))); obs(r, o); };
  h["get"] = [&](const vh::Args& a, vh::Out& o) { obs(idx(pool->GetResource(name(vh::I(a[1])))), o); };
  h["at"] = [&](const vh::Args& a, vh::Out& o) { obs(idx(pool->GetResource((unsigned)vh::I(a[1]))), o); };
  h["newset"] = [&](const vh::Args& a, vh::Out& o) { sets.push_back(pool->CreateResourceSet()); obs(0, o); };
  auto st = [&](const vh::Args& a) { return sets[vh::I(a[1]) - 1]; };
  h["sadd"] = [&](const vh::Args& a, vh::Out& o) { auto r = st(a)->AddResource(name(vh::I(a[2]))).ok(); obs(r, o); };
  h["saddp"] = [&](const vh::Args& a, vh::Out& o) { auto r = st(a)->AddResource(pool->GetResource(name(vh::I(a[2])))).ok(); obs(r, o); };
  h["sforeign"] = [&](const vh::Args& a, vh::Out& o) { auto r = st(a)->AddResource(other->GetResource(0u)).ok(); obs(r, o); };
  h["sacq"] = [&](const vh::Args& a, vh::Out& o) { st(a)->Acquire(); obs(0, o); };
  h["srel"] = [&](const vh::Args& a, vh::Out& o) { st(a)->Release(); obs(0, o); };
  h["racq"] = [&](const vh::Args& a, vh::Out& o) { pool->GetResource(name(vh::I(a[1])))->Acquire(); obs(0, o); };
  h["rrel"] = [&](const vh::Args& a, vh::Out& o) { pool->GetResource(name(vh::I(a[1])))->Release(); obs(0, o); };
  h["oacq"] = [&](const vh::Args& a, vh::Out& o) {
    ops.push_back(std::make_unique<SimpleResourceOperand>(st(a), vh::I(a[2]), line.get()));
    bool f = ops.back()->IsFree();
    ops.back()->Acquire();
    obs(f, o);
  };
  h["orel"] = [&](const vh::Args& a, vh::Out& o) {
    SimpleResourceOperand op(st(a), vh::I(a[2]));
    op.set_delay_line(line.get());
    op.Release();
    obs(op.latency() == vh::I(a[2]) && op.resource_set() == st(a) ? 0 : -1, o);
  };
  h["orel2"] = [&](const vh::Args& a, vh::Out& o) {
    SimpleResourceOperand op(st(a), 7, line.get());
    op.Release(vh::I(a[2]));
    obs(0, o);
  };
  h["adv"] = [&](const vh::Args& a, vh::Out& o) { auto r = line->Advance(); obs(r, o); };
  return vh::Main(h);
}

int main(int argc, char** argv) { return std::string(argv[1]) == "bits" ? Bits() : Pool(); }
