// A stand-in for RE2 on PCRE2, for the constructs the repository uses.
#ifndef VERIF_RE2_H_
#define VERIF_RE2_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <cstdlib>
#include "absl/strings/string_view.h"
#include "absl/strings/numbers.h"
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <pcre2.h>
namespace re2 {
class RE2 {
 public:
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  enum CannedOptions { DefaultOptions, Latin1, POSIX, Quiet };
  struct Options { Options() = default; Options(CannedOptions) {} void set_log_errors(bool) {} void set_case_sensitive(bool) {} };
  class Arg {
   public:
    Arg() : f_(nullptr), p_(nullptr) {}
    Arg(std::nullptr_t) : Arg() {}
    Arg(std::string* s) : p_(s), f_([](const char* b, size_t n, void* p) { static_cast<std::string*>(p)->assign(b ? b : "", n); return true; }) {}
    Arg(absl::string_view* s) : p_(s), f_([](const char* b, size_t n, void* p) { *static_cast<absl::string_view*>(p) = absl::string_view(b, n); return true; }) {}
    template <typename S, typename = std::enable_if_t<std::is_same_v<S, std::string_view> && !std::is_same_v<S, absl::string_view>>>
    Arg(S* s) : p_(s), f_([](const char* b, size_t n, void* p) { *static_cast<S*>(p) = S(b, n); return true; }) {}
    Arg(int* s) : p_(s), f_([](const char* b, size_t n, void* p) { return absl::SimpleAtoi(absl::string_view(b, n), static_cast<int*>(p)); }) {}
    Arg(uint64_t* s) : p_(s), f_([](const char* b, size_t n, void* p) { return absl::SimpleAtoi(absl::string_view(b, n), static_cast<uint64_t*>(p)); }) {}
    bool Parse(const char* b, size_t n) const { return f_ ? f_(b, n, p_) : true; }
   private:
    void* p_;
    bool (*f_)(const char*, size_t, void*);
  };
  RE2(const char* p, const Options& = Options()) { init(p); }
  RE2(const std::string& p, const Options& = Options()) { init(p); }
  RE2(absl::string_view p, const Options& = Options()) { init(std::string(p)); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  ~RE2() { if (c_) pcre2_code_free(c_); }
  bool ok() const { return c_ != nullptr; }
  const std::string& pattern() const { return p_; }
  int NumberOfCapturingGroups() const { uint32_t n = 0; if (c_) pcre2_pattern_info(c_, PCRE2_INFO_CAPTURECOUNT, &n); return n; }
  template <typename... A> static bool PartialMatch(absl::string_view t, const RE2& re, A&&... a) { Arg v[] = {Arg(), Arg(a)...}; return re.go(t, false, v + 1, sizeof...(a)); }
  template <typename... A> static bool FullMatch(absl::string_view t, const RE2& re, A&&... a) { Arg v[] = {Arg(), Arg(a)...}; return re.go(t, true, v + 1, sizeof...(a)); }
  // Matches at the start of the input, which is moved past the match.
  template <typename... A> static bool Consume(absl::string_view* t, const RE2& re, A&&... a) {
    Arg v[] = {Arg(), Arg(a)...};
    size_t end = 0;
    if (!re.go(*t, false, v + 1, sizeof...(a), PCRE2_ANCHORED, &end)) return false;
    t->remove_prefix(end);
    return true;
  }
  static bool FullMatchN(absl::string_view t, const RE2& re, const Arg* const args[], int n) { std::vector<Arg> v; for (int i = 0; i < n; i++) v.push_back(*args[i]); return re.go(t, true, v.data(), n); }
  static bool PartialMatchN(absl::string_view t, const RE2& re, const Arg* const args[], int n) { std::vector<Arg> v; for (int i = 0; i < n; i++) v.push_back(*args[i]); return re.go(t, false, v.data(), n); }
  static int GlobalReplace(std::string* s, const RE2& re, absl::string_view rewrite) {
    std::string out; size_t pos = 0; int n = 0;
    if (!re.c_) return 0;
    auto* md = pcre2_match_data_create_from_pattern(re.c_, nullptr);
    while (pos <= s->size()) {
      int rc = pcre2_match(re.c_, (PCRE2_SPTR)s->data(), s->size(), pos, 0, md, nullptr);
      if (rc <= 0) break;
      auto* ov = pcre2_get_ovector_pointer(md);
      out.append(*s, pos, ov[0] - pos);
      for (size_t i = 0; i < rewrite.size(); i++) {
        if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
          char d = rewrite[++i];
          if (d >= '0' && d <= '9') { int g = d - '0'; if (g < rc && ov[2 * g] != PCRE2_UNSET) out.append(*s, ov[2 * g], ov[2 * g + 1] - ov[2 * g]); }
          else out += d;
        } else out += rewrite[i];
      }
      n++;
      if (ov[1] == ov[0]) { if (ov[0] < s->size()) out += (*s)[ov[0]]; pos = ov[1] + 1; } else pos = ov[1];
    }
    if (pos < s->size()) out.append(*s, pos, std::string::npos);
    pcre2_match_data_free(md);
    if (n) *s = out;
    return n;
  }
  static std::string QuoteMeta(absl::string_view t) { std::string r; for (char c : t) { if (!isalnum((unsigned char)c) && c != '_') r += '\\'; r += c; } return r; }
  class Set {
   public:
    Set(const Options&, Anchor a) : a_(a) {}
    ~Set() { for (auto* r : v_) delete r; }
    Set(const Set&) = delete;
    int Add(absl::string_view p, std::string*) { auto* r = new RE2(p); if (!r->ok()) { delete r; return -1; } v_.push_back(r); return v_.size() - 1; }
    bool Compile() { return true; }
    bool Match(absl::string_view t, std::vector<int>* out) const {
      if (out) out->clear();
      bool any = false;
      for (size_t i = 0; i < v_.size(); i++) if (v_[i]->go(t, a_ == ANCHOR_BOTH, nullptr, 0)) { any = true; if (out) out->push_back(i); }
      return any;
    }
   private:
    Anchor a_;
    std::vector<RE2*> v_;
  };

 private:
  void init(const std::string& p) {
    p_ = p; int e; PCRE2_SIZE o;
    c_ = pcre2_compile((PCRE2_SPTR)p.data(), p.size(), PCRE2_DOLLAR_ENDONLY, &e, &o, nullptr);
  }
  bool go(absl::string_view t, bool full, const Arg* a, int n, uint32_t flags = 0, size_t* end = nullptr) const {
    if (!c_) return false;
    auto* md = pcre2_match_data_create_from_pattern(c_, nullptr);
    int rc = pcre2_match(c_, (PCRE2_SPTR)(t.data() ? t.data() : ""), t.size(), 0, flags | (full ? (PCRE2_ANCHORED | PCRE2_ENDANCHORED) : 0), md, nullptr);
    bool ok = rc > 0;
    if (ok) {
      auto* ov = pcre2_get_ovector_pointer(md);
      if (end) *end = ov[1];
      for (int i = 0; ok && i < n; i++) {
        if (i + 1 >= rc || ov[2 * i + 2] == PCRE2_UNSET) ok = i + 1 <= NumberOfCapturingGroups() && a[i].Parse("", 0);
        else ok = a[i].Parse(t.data() + ov[2 * i + 2], ov[2 * i + 3] - ov[2 * i + 2]);
      }
    }
    pcre2_match_data_free(md);
    return ok;
  }
  std::string p_;
  pcre2_code* c_ = nullptr;
};
struct LazyRE2 {
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const { if (!re_) re_ = new RE2(pattern_); return re_; }
  const char* pattern_;
  mutable RE2* re_;
};
}  // namespace re2
using re2::RE2;
using re2::LazyRE2;
#endif
