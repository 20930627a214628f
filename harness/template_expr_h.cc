#include <memory>
#include "harness.h"
#include "mpact/sim/decoder/template_expression.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
using namespace mpact::sim::machine_description::instruction_set;
using TE = TemplateExpression;

static TemplateFormal formal[4] = {{"a", 0}, {"b", 1}, {"c", 2}, {"d", 3}};

static absl::StatusOr<TemplateValue> Sum(TemplateInstantiationArgs* args) {
  int r = 0;
  for (auto* a : *args) {
    auto v = a->GetValue();
    if (!v.ok()) return v.status();
    r += std::get<int>(v.value());
  }
  return TemplateValue(r);
}
static absl::StatusOr<TemplateValue> Not3(TemplateInstantiationArgs* args) {
  if (args->size() != 1) return absl::InternalError("arity");
  auto v = (*args)[0]->GetValue();
  if (!v.ok()) return v.status();
  if (std::get<int>(v.value()) == 3) return absl::InternalError("three");
  return TemplateValue(2 * std::get<int>(v.value()));
}

static TE* Parse(const char*& p) {
  // [tag,...]
  ++p;
  std::string tag;
  while (*p != ',' && *p != ']') tag += *p++;
  TE* r = nullptr;
  auto num = [&]() { char* e; long v = strtol(p, &e, 10); p = e; return (int)v; };
  ++p;
  if (tag == "c") r = new TemplateConstant(num());
  else if (tag == "p") r = new TemplateParam(&formal[num()]);
  else if (tag == "neg") r = new TemplateNegate(Parse(p));
  else if (tag == "slot") r = new SlotConstant(Parse(p));
  else if (tag == "fn") {
    std::string nm;
    while (*p != ',') nm += *p++;
    ++p;  // ,
    ++p;  // [
    auto* args = new TemplateInstantiationArgs;
    while (*p != ']') { args->push_back(Parse(p)); if (*p == ',') ++p; }
    ++p;
    r = new TemplateFunction(nm == "sum" ? Sum : Not3, args);
  } else {
    TE* l = Parse(p);
    ++p;
    TE* q = Parse(p);
    if (tag == "add") r = new TemplateAdd(l, q);
    if (tag == "sub") r = new TemplateSubtract(l, q);
    if (tag == "mul") r = new TemplateMultiply(l, q);
    if (tag == "div") r = new TemplateDivide(l, q);
  }
  ++p;  // ]
  return r;
}

int main() {
  std::unique_ptr<TE> e[5];
  auto view = [&](bool ok, vh::Out& o) {
    o.b(ok).open();
    for (int k = 1; k <= 4; k++) {
      o.open();
      if (e[k]) {
        o.b(e[k]->IsConstant());
        auto v = e[k]->GetValue();
        o.open();
        if (v.ok()) o.s("v").i(std::get<int>(v.value()));
        else o.s("err");
        o.close();
      }
      o.close();
    }
    o.close();
  };
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) { for (auto& x : e) x.reset(); view(true, o); }},
      {"mk", [&](const vh::Args& a, vh::Out& o) { const char* p = a[2].c_str(); e[vh::I(a[1])].reset(Parse(p)); view(true, o); }},
      {"copy", [&](const vh::Args& a, vh::Out& o) { TE* c = e[vh::I(a[1])]->DeepCopy(); e[vh::I(a[2])].reset(c); view(true, o); }},
      {"del", [&](const vh::Args& a, vh::Out& o) { e[vh::I(a[1])].reset(); view(true, o); }},
      {"eval", [&](const vh::Args& a, vh::Out& o) {
         TemplateInstantiationArgs args;
         for (auto i : vh::L(a[3])) args.push_back(e[i].get());
         auto r = e[vh::I(a[1])]->Evaluate(vh::I(a[2]) ? nullptr : &args);
         if (r.ok()) {
           if (r.value() == nullptr) { o.s("null expression"); return; }
           for (int k = 1; k <= 4; k++) if (e[k].get() == r.value()) { o.s("aliased expression"); return; }
           e[vh::I(a[4])].reset(r.value());
         }
         view(r.ok(), o);
       }},
  });
}
