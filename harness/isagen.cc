// Runs the repository's .isa generator on one file.
#include <iostream>
#include <string>
#include <vector>
#include "absl/log/log_entry.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "mpact/sim/decoder/instruction_set_visitor.h"
struct Sink : absl::LogSink {
  void Send(const absl::LogEntry& e) override { std::cerr << e.text_message() << "\n"; }
};
int main(int argc, char** argv) {
  std::string res;
  Sink sink;
  absl::AddLogSink(&sink);
  {
    mpact::sim::machine_description::instruction_set::InstructionSetVisitor visitor;
    auto st = visitor.Process({argv[1]}, argv[3], argv[4], {}, argv[2]);
    res = st.ok() ? "ok" : "rejected";
  }
  std::cout << "\n" << res << std::endl;
  return 0;
}
