"""Writes, from the installed (old) Abseil headers, the two or three headers whose
interface moved in the Abseil release the repository uses: there absl::string_view
is std::string_view, and absl::bit_width returns int."""
import os, re, sys
INC = "/usr/include/absl"
def w(out, name, text):
    p = os.path.join(out, "absl", name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
def generate(out):
    t = open(INC + "/strings/string_view.h").read()
    a = "  constexpr string_view() noexcept : ptr_(nullptr), length_(0) {}\n"
    assert a in t
    t = t.replace(a, a + """
  constexpr string_view(std::basic_string_view<char> v) noexcept  // NOLINT
      : ptr_(v.data()), length_(v.size()) {}
  constexpr operator std::basic_string_view<char>() const noexcept {  // NOLINT
    return std::basic_string_view<char>(ptr_, length_);
  }
""", 1).replace("#include <string>\n", "#include <string>\n#include <string_view>\n", 1)
    assert "#include <string_view>" in t
    w(out, "strings/string_view.h", t)
    t = open(INC + "/strings/str_cat.h").read()
    m = re.search(r"  AlphaNum\(absl::string_view pc\) : piece_\(pc\) \{\}[^\n]*\n", t)
    assert m
    t = t.replace(m.group(0), m.group(0) + """  AlphaNum(std::basic_string_view<char> v)  // NOLINT
      : piece_(v.data(), v.size()) {}
""", 1)
    w(out, "strings/str_cat.h", t)
    t = open(INC + "/strings/internal/str_split_internal.h").read()
    a = "  ConvertibleToStringView(const std::string& s)  // NOLINT(runtime/explicit)\n"
    assert a in t
    t = t.replace(a, """  ConvertibleToStringView(std::basic_string_view<char> s)  // NOLINT
      : value_(s.data(), s.size()) {}
""" + a, 1)
    w(out, "strings/internal/str_split_internal.h", t)
    t = open(INC + "/numeric/bits.h").read()
    m = re.search(r"inline\s+typename std::enable_if<std::is_unsigned<T>::value, T>::type\s+bit_width\(T x\) noexcept \{\s*return std::numeric_limits<T>::digits -\s*static_cast<unsigned int>\(countl_zero\(x\)\);\s*\}", t)
    assert m, "bit_width"
    n = m.group(0).replace("value, T>::type", "value, int>::type").replace("static_cast<unsigned int>(countl_zero(x))", "countl_zero(x)")
    t = t.replace(m.group(0), n)
    t = t.replace("T{1} << bit_width(static_cast<T>(x - 1))", "T{1} << bit_width(static_cast<T>(x - 1))")
    w(out, "numeric/bits.h", t)
def overlay(repo, out, dirs):
    """Copies sources with absl::string_view spelled as what it is an alias of."""
    for d in dirs:
        o = os.path.join(out, d)
        os.makedirs(o, exist_ok=True)
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if not f.endswith((".h", ".cc")):
                continue
            t = open(os.path.join(repo, d, f)).read()
            t = re.sub(r"\babsl::string_view\b", "std::string_view", t)
            t = t.replace('#include "absl/strings/string_view.h"',
                          '#include "absl/strings/string_view.h"\n#include <string_view>\n#line %d' % (
                              t[:t.find('#include "absl/strings/string_view.h"')].count("\n") + 2))
            open(os.path.join(o, f), "w").write(t)
if __name__ == "__main__":
    generate(sys.argv[1])
    if len(sys.argv) > 2:
        overlay(sys.argv[2], sys.argv[1], sys.argv[3:])
