// What the generated decoders see: semantic functions that can be told apart and operands
// that know what they were asked for as.
#ifndef VERIF_ISADEC_H_
#define VERIF_ISADEC_H_
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"
namespace vi {
namespace g = ::mpact::sim::generic;
extern int last_sem;
int64_t Value(const std::string& name);
using Attrs = std::map<std::string, int>;  // attribute name -> index
struct Pred : g::PredicateOperandInterface {
  std::string s;
  explicit Pred(std::string x) : s(std::move(x)) {}
  bool Value() override { return true; }
  std::string AsString() const override { return s; }
};
struct Src : g::SourceOperandInterface {
  std::string s;
  int64_t v;
  Src(std::string x, int64_t val) : s(std::move(x)), v(val) {}
  bool AsBool(int) override { return v; }
  int8_t AsInt8(int) override { return v; }
  uint8_t AsUint8(int) override { return v; }
  int16_t AsInt16(int) override { return v; }
  uint16_t AsUint16(int) override { return v; }
  int32_t AsInt32(int) override { return v; }
  uint32_t AsUint32(int) override { return v; }
  int64_t AsInt64(int) override { return v; }
  uint64_t AsUint64(int) override { return v; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return s; }
};
struct Dst : g::DestinationOperandInterface {
  std::string s;
  int lat;
  Dst(std::string x, int l) : s(std::move(x)), lat(l) {}
  g::DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(g::DataBuffer*) override {}
  g::DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return lat; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return s; }
};
struct Res : g::ResourceOperandInterface {
  std::vector<std::string> names;
  bool complex;
  int b, e;
  bool bad;
  Res(std::vector<std::string> n, bool c, int bb, int ee, bool x)
      : names(std::move(n)), complex(c), b(bb), e(ee), bad(x) {}
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return ""; }
};
struct Prog {
  std::map<std::string, std::function<g::Instruction*(const std::string&, int, uint64_t, Attrs*)>>
      slots;
  std::function<g::Instruction*(const std::vector<std::string>&, uint64_t, std::vector<Attrs>*)>
      word;
  const char** opcodes = nullptr;
};
std::map<int, Prog>& Progs();
std::string Lower(std::string s);
std::string Plain(std::string s);  // lower case, without underscores
#define VERIF_ATTR(x, X)                                                                   \
  template <class T>                                                                       \
  auto Get##X(int)->decltype(static_cast<int>(T::k##X)) { return static_cast<int>(T::k##X); } \
  template <class T>                                                                       \
  int Get##X(...) { return -1; }
VERIF_ATTR(a, A) VERIF_ATTR(b, B) VERIF_ATTR(c, C) VERIF_ATTR(d, D)
template <class T>
Attrs AttrIndex() {
  return {{"a", GetA<T>(0)}, {"b", GetB<T>(0)}, {"c", GetC<T>(0)}, {"d", GetD<T>(0)},
          {"#", static_cast<int>(T::kPastMaxValue)}};
}
}  // namespace vi
inline std::function<void(::mpact::sim::generic::Instruction*)> Sem(int n) {
  return [n](::mpact::sim::generic::Instruction*) { vi::last_sem = n; };
}
// Found when the generated namespace of a slot has no such type.
enum class AttributeEnum { kPastMaxValue = 0 };
#endif
