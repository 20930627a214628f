// Runs the repository's .bin_fmt generator on "file outdir prefix" lines.
#include <iostream>
#include <string>
#include <vector>
#include "mpact/sim/decoder/bin_format_visitor.h"
int main() {
  std::string in, out, prefix;
  while (std::cin >> in >> out >> prefix) {
    std::string res;
    {
      mpact::sim::decoder::bin_format::BinFormatVisitor visitor;
      auto st = visitor.Process({in}, "D", prefix, {}, out);
      res = st.ok() ? "ok" : "rejected";
    }
    std::cout << "\n" << res << std::endl;
  }
  return 0;
}
