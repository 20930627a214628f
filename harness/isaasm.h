// What the generated assemblers see: an encoder that knows what it was asked for.
#ifndef VERIF_ISAASM_H_
#define VERIF_ISAASM_H_
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "mpact/sim/util/asm/opcode_assembler_interface.h"
#include "mpact/sim/util/asm/resolver_interface.h"
namespace va {
namespace as = ::mpact::sim::util::assembler;
struct Call {
  std::string kind, name;
  int num;
  std::string text;
};
struct Result {
  bool ok = false;
  int size = 0;
  std::string op, bad;
  int entry = 0;
  std::vector<Call> calls, relocs;
};
struct Prog {
  std::map<std::string, std::string> names;  // opcodes, by their plain names
  std::map<std::string, std::function<Result(int, uint64_t, const std::string&)>> slots;
};
std::map<int, Prog>& Progs();
std::string Lower(std::string s);
// The encoding returned for the n-th question is 1 << n: the opcode and the operands of an
// encoding are the questions whose bits it has.
struct Log {
  std::vector<Call> calls;
  std::vector<int> opcode;  // of each call
  std::string bad;
  uint64_t address = 0;
  int slot = 0, entry = 0;
  as::ResolverInterface* resolver = nullptr;
};
}  // namespace va
#endif
