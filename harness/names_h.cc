#include <memory>
#include "harness.h"
#include "absl/status/statusor.h"
#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/resource.h"
using namespace mpact::sim::machine_description::instruction_set;
static std::string S(const std::string& a) {
  std::string r;
  for (auto c : vh::L(a)) r += (char)c;
  return r;
}
static std::vector<int> C(const std::string& s) {
  std::vector<int> r;
  for (unsigned char c : s) r.push_back(c);
  return r;
}
int main() {
  std::unique_ptr<ResourceFactory> f;
  std::vector<Resource*> order;
  auto id = [&](Resource* r) -> int {
    for (size_t i = 0; i < order.size(); i++) if (order[i] == r) return i + 1;
    order.push_back(r);
    return order.size();
  };
  auto dump = [&](vh::Out& o) {
    o.open();
    for (auto& [k, r] : f->resource_map()) {
      o.open();
      if (k != r->name()) { o.s("key is not the name").close(); continue; }
      o.list(C(k)).i(id(r)).b(r->is_simple()).b(r->is_multi_valued()).b(r->is_array()).list(C(r->pascal_name())).close();
    }
    o.close();
  };
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) { f = std::make_unique<ResourceFactory>(); order.clear(); o.i(0); dump(o); }},
      {"create", [&](const vh::Args& a, vh::Out& o) {
         auto r = f->CreateResource(S(a[1]));
         int i = 0;
         if (r.ok()) { i = id(r.value()); }
         else if (!absl::IsAlreadyExists(r.status())) i = -1;
         o.i(i);
         dump(o);
       }},
      {"get", [&](const vh::Args& a, vh::Out& o) {
         Resource* r = f->GetOrInsertResource(S(a[1]));
         o.i(r ? id(r) : -1);
         dump(o);
       }},
      {"set", [&](const vh::Args& a, vh::Out& o) {
         Resource* r = order[vh::I(a[1]) - 1];
         bool v = vh::I(a[3]);
         if (a[2] == "simple") r->set_is_simple(v);
         if (a[2] == "multi") r->set_is_multi_valued(v);
         if (a[2] == "array") r->set_is_array(v);
         o.i(vh::I(a[1]));
         dump(o);
       }},
      {"conv", [&](const vh::Args& a, vh::Out& o) {
         std::string s = S(a[2]), r;
         if (a[1] == "pascal") r = ToPascalCase(s);
         if (a[1] == "snake") r = ToSnakeCase(s);
         if (a[1] == "guard") r = ToHeaderGuard(s);
         if (a[1] == "lower") r = ToLowerCase(s);
         if (a[1] == "indent") r = Indent(absl::string_view(s));
         o.list(C(r));
       }},
      {"indentn", [&](const vh::Args& a, vh::Out& o) { o.list(C(Indent((int)vh::I(a[1])))); }},
  });
}
