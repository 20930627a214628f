// Components, configuration entries and counters.
#include <memory>
#include "harness.h"
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/proto/component_data.pb.h"
using namespace mpact::sim::generic;
namespace pb = mpact::sim::proto;

// Nested lists of integers.
struct V {
  bool leaf = false;
  long long i = 0;
  std::vector<V> l;
};
static V Parse(const std::string& s, size_t& p) {
  V v;
  if (s[p] == '[') {
    p++;
    while (s[p] != ']') {
      v.l.push_back(Parse(s, p));
      if (s[p] == ',') p++;
    }
    p++;
    return v;
  }
  size_t e = p;
  while (e < s.size() && (isdigit(s[e]) || s[e] == '-')) e++;
  v.leaf = true;
  v.i = atoll(s.substr(p, e - p).c_str());
  p = e;
  return v;
}

// Values by index: 0 is the default.
static const int64_t kI[] = {0, 1, -1, INT64_MAX, INT64_MIN, 77};
static const uint64_t kU[] = {0, 1, UINT64_MAX, 1ULL << 63, 0x100000000ULL, 77};
static const double kD[] = {0.0, -1.5, 1e300, 3.0, 0.1, 77.0};
static const std::string kS[] = {"", "a", std::string("x\0y", 3), "long \"text\"\n", "\xc3\xa9", "77"};
static const PhysicalValue kP[] = {PhysicalValue(0.0), PhysicalValue(1.5, pb::UNIT_VOLT),
                                   PhysicalValue(1.5, pb::PREFIX_PICO, pb::UNIT_VOLT),
                                   PhysicalValue(-2.0, pb::PREFIX_TERA, pb::UNIT_HERTZ),
                                   PhysicalValue(1e-9, pb::PREFIX_NONE, pb::UNIT_WATT),
                                   PhysicalValue(77, pb::PREFIX_KILO, pb::UNIT_AMPERE)};
template <typename T, typename A>
static int Find(const A& a, const T& v) {
  for (int i = 0; i < 6; i++)
    if (a[i] == v) return i;
  return -1;
}
static bool operator==(const PhysicalValue& a, const PhysicalValue& b) {
  return a.value == b.value && a.si_prefix == b.si_prefix && a.si_unit == b.si_unit;
}
static int FindP(const PhysicalValue& v) {
  for (int i = 0; i < 6; i++)
    if (kP[i] == v) return i;
  return -1;
}

static int CN(int c) { static int n[] = {0, 1, 2, 3, 2, 4}; return n[c]; }
static int GN(int c) { static int n[] = {0, 1, 2, 3, 4, 5, 2}; return n[c]; }
static int KN(int c) { static int n[] = {0, 1, 2, 2, 3}; return n[c]; }
static std::string Nm(const char* p, int n) { return p + std::to_string(n); }

struct Base {
  virtual ~Base() = default;
  virtual void Handle(const vh::Args& a, vh::Out& o) = 0;
};

template <typename T>
struct Sys : Base {
  struct Logger : CounterValueSetInterface<T> {
    Sys* s;
    int k;
    void SetValue(const T& v) override { s->log.push_back({k, (long long)v}); }
  };
  std::vector<std::vector<long long>> log;
  std::unique_ptr<Component> comp[6];
  Config<bool> c1{"g1", false};
  Config<int64_t> c2{"g2", 0};
  Config<uint64_t> c3{"g3", 0};
  Config<double> c4{"g4", 0.0};
  Config<std::string> c5{"g5", ""};
  Config<PhysicalValue> c6{"g2", PhysicalValue(0.0)};
  ConfigBase* cfg[7] = {nullptr, &c1, &c2, &c3, &c4, &c5, &c6};
  SimpleCounter<T> k1{"k1", "about one", T(0)}, k2{"k2", T(0)}, k3;
  FunctionCounter<T> k4{"k3", T(0)};
  CounterBaseInterface* ctr[5] = {nullptr, &k1, &k2, &k3, &k4};
  Logger lg[5];

  Sys() {
    for (int i = 1; i <= 5; i++) {
      comp[i] = std::make_unique<Component>(Nm("n", CN(i)));
      comp[i]->AddImportDoneCallback([this, i] { log.push_back({i}); });
    }
    k4.SetFunction([](const T& in, T* out) {
      if (((long long)in) % 2 != 0) return false;
      *out = in + 100;
      return true;
    });
    for (int i = 1; i <= 4; i++) {
      lg[i].s = this;
      lg[i].k = i;
    }
    k1.AddListener(&lg[1]);
    k2.AddListener(&lg[2]);
    k3.AddListener(&lg[3]);
    k4.AddListener(&lg[4]);
  }
  SimpleCounter<T>* sc(int k) { return k == 1 ? &k1 : k == 2 ? &k2 : &k3; }
  CounterValueSetInterface<T>* in(int k) {
    if (k == 4) return &k4;
    return sc(k);
  }
  bool ini3 = false;
  int CfgVal(int g) {
    auto v = cfg[g]->GetConfigValue();
    switch (g) {
      case 1: return std::get<bool>(v);
      case 2: return Find(kI, std::get<int64_t>(v));
      case 3: return Find(kU, std::get<uint64_t>(v));
      case 4: return Find(kD, std::get<double>(v));
      case 5: return Find(kS, std::get<std::string>(v));
      default: return FindP(std::get<PhysicalValue>(v));
    }
  }
  void Vals(vh::Out& o) {
    o.open();
    for (int g = 1; g <= 6; g++) o.open().i(CfgVal(g)).b(cfg[g]->HasConfigValue()).close();
    o.close().open();
    for (int k = 1; k <= 4; k++) {
      long long v = 0;
      if (k != 3 || ini3) {
        v = (long long)std::get<T>(ctr[k]->GetCounterValue());
        T w = k == 4 ? k4.GetValue() : sc(k)->GetValue();
        if (ctr[k]->ToString() != absl::StrCat(w) || (long long)w != v) v = -999;
      }
      o.open().i(v).b(ctr[k]->IsEnabled()).close();
    }
    o.close();
  }
  int Num(const std::string& s, char p) { return s.size() > 1 && s[0] == p ? atoi(s.c_str() + 1) : -1; }
  void Entry(vh::Out& o, const pb::ComponentValueEntry& e) {
    o.open().i(Num(e.name(), 'g'));
    switch (e.value_case()) {
      case pb::ComponentValueEntry::kBoolValue: o.i(1).i(e.bool_value()); break;
      case pb::ComponentValueEntry::kSint64Value: o.i(2).i(Find(kI, e.sint64_value())); break;
      case pb::ComponentValueEntry::kUint64Value: o.i(3).i(Find(kU, e.uint64_value())); break;
      case pb::ComponentValueEntry::kDoubleValue: o.i(4).i(Find(kD, e.double_value())); break;
      case pb::ComponentValueEntry::kStringValue: o.i(5).i(Find(kS, e.string_value())); break;
      case pb::ComponentValueEntry::kPhysicalValue:
        o.i(6).i(FindP(PhysicalValue(e.physical_value().value(), e.physical_value().si_prefix(),
                                     e.physical_value().si_unit())));
        break;
      default: o.i(0).i(0);
    }
    o.close();
  }
  void Dump(vh::Out& o, const pb::ComponentData& d) {
    o.open().i(Num(d.name(), 'n')).open();
    for (auto& e : d.configuration()) Entry(o, e);
    o.close().open();
    for (auto& e : d.statistics()) {
      o.open().i(Num(e.name(), 'k'));
      if constexpr (std::is_same_v<T, int64_t>) o.i(e.has_sint64_value() ? e.sint64_value() : -998);
      if constexpr (std::is_same_v<T, uint64_t>) o.i(e.has_uint64_value() ? (long long)e.uint64_value() : -998);
      if constexpr (std::is_same_v<T, double>) o.i(e.has_double_value() ? (long long)e.double_value() : -998);
      if ((e.name() == "k1") != (e.about() == "about one")) o.s("about");
      o.close();
    }
    o.close().open();
    for (auto& c : d.component_data()) Dump(o, c);
    o.close().close();
  }
  void Fill(pb::ComponentData* d, const V& v) {
    if (v.l[0].i) d->set_name(Nm("n", v.l[0].i));
    for (auto& e : v.l[1].l) {
      auto* x = d->add_configuration();
      if (e.l[0].i) x->set_name(Nm("g", e.l[0].i));
      int i = e.l[2].i;
      switch (e.l[1].i) {
        case 1: x->set_bool_value(i % 2); break;
        case 2: x->set_sint64_value(kI[i]); break;
        case 3: x->set_uint64_value(kU[i]); break;
        case 4: x->set_double_value(kD[i]); break;
        case 5: x->set_string_value(kS[i]); break;
        case 6: {
          auto* p = x->mutable_physical_value();
          p->set_value(kP[i].value);
          p->set_si_prefix(kP[i].si_prefix);
          p->set_si_unit(kP[i].si_unit);
        }
      }
    }
    for (auto& c : v.l[2].l) Fill(d->add_component_data(), c);
  }
  void SetCfg(int g, int v) {
    switch (g) {
      case 1: c1.SetValue(v % 2); break;
      case 2: c2.SetValue(kI[v]); break;
      case 3: c3.SetValue(kU[v]); break;
      case 4: c4.SetValue(kD[v]); break;
      case 5: c5.SetValue(kS[v]); break;
      case 6: c6.SetValue(kP[v]); break;
    }
  }
  ConfigValue Var(int t, int v) {
    switch (t) {
      case 1: return ConfigValue(bool(v % 2));
      case 2: return ConfigValue(kI[v]);
      case 3: return ConfigValue(kU[v]);
      case 4: return ConfigValue(kD[v]);
      case 5: return ConfigValue(kS[v]);
      default: return ConfigValue(kP[v]);
    }
  }
  void Handle(const vh::Args& a, vh::Out& o) override {
    log.clear();
    int x = vh::I(a[1]), y = a.size() > 2 && a[2][0] != '[' ? vh::I(a[2]) : 0;
    bool done = false;
    long ret = 0;
    if (a[0] == "kid") {
      auto* before = comp[y]->parent();
      ret = comp[x]->AddChildComponent(*comp[y]).ok();
      if (!ret && comp[y]->parent() != before) ret = -1;
      if (ret && comp[y]->parent() != comp[x].get()) ret = -1;
      if (ret && comp[x]->GetChildComponent(Nm("n", CN(y))) != comp[y].get()) ret = -2;
    } else if (a[0] == "unkid") {
      ret = comp[x]->RemoveChildComponent(Nm("n", y)).ok();
      if (comp[x]->GetChildComponent(Nm("n", y))) ret = -2;
    } else if (a[0] == "addcfg") {
      ret = comp[x]->AddConfig(cfg[y]).ok();
      if (ret && comp[x]->GetConfig(Nm("g", GN(y))) != cfg[y]) ret = -2;
    } else if (a[0] == "addctr") {
      ret = comp[x]->AddCounter(ctr[y]).ok();
      if (ret && comp[x]->GetCounter(Nm("k", KN(y))) != ctr[y]) ret = -2;
    } else if (a[0] == "cb") {
      auto f = [this, x] { log.push_back({x}); };
      switch (x) {
        case 1: c1.AddValueWrittenCallback(f); break;
        case 2: c2.AddValueWrittenCallback(f); break;
        case 3: c3.AddValueWrittenCallback(f); break;
        case 4: c4.AddValueWrittenCallback(f); break;
        case 5: c5.AddValueWrittenCallback(f); break;
        case 6: c6.AddValueWrittenCallback(f); break;
      }
    } else if (a[0] == "cset") SetCfg(x, y);
    else if (a[0] == "csetv") ret = cfg[x]->SetConfigValue(Var(y, vh::I(a[3]))).ok();
    else if (a[0] == "inc") { if (x != 4) sc(x)->Increment(T(y)); }
    else if (a[0] == "dec") { if (x != 4) sc(x)->Decrement(T(y)); }
    else if (a[0] == "set") in(x)->SetValue(T(y));
    else if (a[0] == "enable") ctr[x]->SetIsEnabled(y);
    else if (a[0] == "init") {
      k3.Initialize("k2", T(y));
      ini3 = true;
    } else if (a[0] == "listen") {
      if (x == 4) k4.AddListener(in(y));
      else sc(x)->AddListener(in(y));
    } else if (a[0] == "export") {
      pb::ComponentData d;
      bool ok = comp[x]->Export(&d).ok();
      if (!ok) o.i(-1);
      else Dump(o, d);
      done = true;
    } else if (a[0] == "done") comp[x]->ImportDone();
    else if (a[0] == "import") {
      size_t p = 0;
      V v = Parse(a[2], p);
      pb::ComponentData d;
      Fill(&d, v);
      ret = comp[x]->Import(d).ok();
    }
    if (!done) o.i(ret);
    o.open();
    for (auto& e : log) {
      if (e.size() == 1) o.i(e[0]);
      else o.list(e);
    }
    o.close();
    Vals(o);
  }
};

int main(int argc, char** argv) {
  std::string t = argc > 1 ? argv[1] : "i64";
  std::unique_ptr<Base> sys;
  auto gen = [&](const vh::Args& a, vh::Out& o) {
    if (a[0] == "reset") {
      if (t == "i64") sys = std::make_unique<Sys<int64_t>>();
      else if (t == "u64") sys = std::make_unique<Sys<uint64_t>>();
      else sys = std::make_unique<Sys<double>>();
      return;
    }
    sys->Handle(a, o);
  };
  std::map<std::string, vh::Handler> h;
  for (auto n : {"reset", "kid", "unkid", "addcfg", "addctr", "cb", "cset", "csetv", "inc", "dec", "set", "enable",
                 "init", "listen", "export", "done", "import"})
    h[n] = gen;
  return vh::Main(h);
}
