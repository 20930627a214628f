#include "harness.h"
#include "mpact/sim/decoder/extract.h"
using namespace mpact::sim::decoder::bin_format;
static uint64_t W(const std::string& s) {
  uint64_t r = 0;
  for (auto b : vh::L(s)) r |= 1ULL << b;
  return r;
}
int main(int argc, char** argv) {
  ExtractionRecipe rec;
  return vh::Main({
      {"reset", [&](const vh::Args& a, vh::Out& o) { rec.clear(); o.b(true); }},
      {"mask", [&](const vh::Args& a, vh::Out& o) { rec = GetExtractionRecipe(W(a[1])); o.b(true); }},
      {"ext", [&](const vh::Args& a, vh::Out& o) {
         uint64_t v = ExtractValue(W(a[1]), rec);
         // The meaning of a step is public: (value >> shift) & mask.
         uint64_t u = 0;
         for (auto& st : rec) u |= (W(a[1]) >> st.shift) & st.mask;
         if (u != v) { o.s("ExtractValue differs from the recipe's steps"); return; }
         std::vector<int> bits;
         for (int i = 0; i < 64; i++) if ((v >> i) & 1) bits.push_back(i);
         o.list(bits);
       }},
      {"text", [&](const vh::Args& a, vh::Out& o) { o.s(WriteExtraction(GetExtractionRecipe(W(a[1])), "value", "result", "  ")); }},
  });
}
