// SimpleAssembler: see spec/Assembler.tla.
#include <memory>
#include <sstream>
#include "harness.h"
#include "mpact/sim/util/asm/simple_assembler.h"
#include "mpact/sim/util/asm/opcode_assembler_interface.h"
#include "mpact/sim/util/asm/resolver_interface.h"
using namespace mpact::sim::util::assembler;
using vh::Args;
using vh::I;
using vh::Out;

static std::vector<std::string> Parts(const std::string& s) {
  std::vector<std::string> r;
  std::string t = s.substr(1, s.size() - 2), x;
  int d = 0;
  for (char ch : t) {
    if (ch == '[') d++;
    if (ch == ']') d--;
    if (ch == ',' && d == 0) { r.push_back(x); x.clear(); continue; }
    if (ch != '"' && ch != ' ') x += ch;
  }
  if (!t.empty()) r.push_back(x);
  return r;
}

// A little instruction set: nop, nop2, ld s, ref s, t, a, near s, pc.
struct Ops : OpcodeAssemblerInterface {
  RE2 label_re{"^\\s*(\\S+)\\s*:"};
  absl::StatusOr<size_t> Encode(uint64_t address, absl::string_view text, AddSymbolCallback add, ResolverInterface* res,
                                std::vector<uint8_t>& bytes, std::vector<RelocationInfo>& relo) override {
    std::string label;
    if (RE2::Consume(&text, label_re, &label)) {
      auto st = add(label, address, 0, ELFIO::STT_NOTYPE, 0, 0);
      if (!st.ok()) return st;
    }
    std::stringstream ss{std::string(text)};
    std::string op, sym, t, a;
    ss >> op >> sym >> t >> a;
    auto put = [&](uint32_t v) { for (int i = 0; i < 4; i++) bytes.push_back(v >> 8 * i); };
    if (op == "nop" && sym.empty()) put(19);
    else if (op == "nop2" && sym.empty()) { bytes.push_back(1); bytes.push_back(0); }
    else if (op == "pc" && sym.empty()) put(address);
    else if ((op == "ld" || op == "near" || op == "ref") && !sym.empty()) {
      auto v = res->Resolve(sym);
      if (!v.ok()) return v.status();
      if (op == "near") {
        if (*v > 16384) return absl::OutOfRangeError("too far");
        put(0);
      } else {
        if (op == "ref") bytes.push_back(7);
        put(*v);
        if (op == "ref") {
          bytes.push_back(9);
          relo.emplace_back(0, sym, I(t), I(a), 0);
        }
      }
    } else {
      return absl::InvalidArgumentError("no such instruction");
    }
    return bytes.size();
  }
};

static const char* kComments[] = {";", "//", "#"};
static const char* kNames[] = {"main", "L1", "_x", "data2", "zz"};
static Ops ops;
static std::unique_ptr<SimpleAssembler> as;
static int cls, com;
static std::string source;
static unsigned vary;
static unsigned V(unsigned n) { vary = vary * 1103515245u + 12345u; return (vary >> 16) % n; }

static std::string Ws() { const char* w[] = {" ", "  ", "\t", " \t "}; return w[V(4)]; }
static std::string Chr(int c, char q) {
  switch (c) {
    case '\n': return "\\n";
    case '\r': return "\\r";
    case '\v': return "\\v";
    case '\f': return "\\f";
    case '\a': return "\\a";
    case '\b': return "\\b";
    case '\t': return V(2) && q == '"' ? "\t" : "\\t";
    case '\\': return "\\\\";
    case '?': return V(2) ? "?" : "\\?";
    default: return c == q ? std::string("\\") + char(c) : std::string(1, char(c));
  }
}
static std::string Comma(bool cont) {
  const char* c[] = {",", ", ", " , ", " ,"};
  std::string s = c[V(4)];
  if (cont && V(6) == 0) s += "\\\n";
  return s;
}
static std::string Number(const std::vector<std::string>& b, bool sgn) {
  uint64_t v = 0;
  for (size_t i = 0; i < b.size(); i++) v |= uint64_t(I(b[i])) << 8 * i;
  int bits = 8 * b.size();
  bool neg = sgn && (v >> (bits - 1)) & 1;
  if (neg) {
    if (bits < 64) v |= ~0ULL << bits;
    return std::to_string((long long)v);
  }
  if (V(2)) {
    char t[32];
    snprintf(t, sizeof t, V(2) ? "0x%llx" : "0x%llX", (unsigned long long)v);
    return t;
  }
  return std::to_string((unsigned long long)v);
}
static std::string Statement(const std::string& kind, const std::string& args) {
  std::string r;
  if (kind == "none") return "";
  auto a = Parts(args);
  if (kind == "sect") return "." + a[0];
  if (kind == "vals") {
    int w = I(a[0]), sg = I(a[1]);
    const char* n = w == 1 ? (V(2) ? ".uchar" : ".bytes") : w == 2 ? (sg ? ".short" : ".ushort") : w == 4 ? (sg ? ".word" : ".uword") : (sg ? ".long" : ".ulong");
    r = n + Ws();
    bool first = true;
    for (auto& v : Parts(a[2])) {
      if (!first) r += Comma(true);
      first = false;
      r += Number(Parts(v), sg);
    }
    return r;
  }
  if (kind == "str" || kind == "char") {
    bool ch = kind == "char";
    r = ch ? ".char" : I(a[0]) ? ".cstring" : ".string";
    r += Ws();
    bool first = true;
    for (auto& v : ch ? a : Parts(a[1])) {
      if (!first) r += Comma(true);
      first = false;
      char q = ch ? '\'' : '"';
      r += q;
      if (ch) r += Chr(I(v), q);
      else for (auto& x : Parts(v)) r += Chr(I(x), q);
      r += q;
    }
    return r;
  }
  if (kind == "space" || kind == "align") {
    char t[32];
    snprintf(t, sizeof t, V(3) ? "%lld" : "0x%llx", I(a[0]));
    return "." + kind + Ws() + t;
  }
  if (kind == "global") {
    r = ".global" + Ws();
    for (size_t i = 0; i < a.size(); i++) r += (i ? Comma(true) : "") + a[i];
    return r;
  }
  if (kind == "op") {
    for (size_t i = 0; i < a.size(); i++) r += (i ? Ws() : "") + a[i];
    return r;
  }
  const char* bad[] = {".foo 1", ".word 1, x, 2", ".word 1 2", ".char 'ab'", ".align 3", ".align 0", ".space -1", ".string \"abc", ".global 9x", ".sect .x",
                       "bogus 3", ".uchar -1", ".align", ".short 1, q", ".ulong 0x", ".char 'a', b", ".cstring \"a\" \"b\"", ".long 99999999999999999999"};
  return bad[I(a[0]) % (sizeof bad / sizeof *bad)];
}

static std::vector<uint8_t> Data(const char* n) {
  auto* s = as->writer().sections[n];
  std::vector<uint8_t> v;
  if (s == nullptr) return v;
  const char* d = s->get_data();
  for (size_t i = 0; i < s->get_size(); i++) v.push_back(d[i]);
  return v;
}
template <typename Sym>
static void Symbols(Out& o, bool& ok) {
  auto& w = as->writer();
  auto* st = w.sections[".symtab"];
  ELFIO::string_section_accessor str(w.sections[".strtab"]);
  size_t n = st->get_size() / sizeof(Sym);
  std::vector<Sym> v(n);
  if (n) memcpy(v.data(), st->get_data(), n * sizeof(Sym));
  o.open();
  for (auto* name : kNames) {
    int found = 0;
    for (size_t i = 0; i < n; i++) {
      if (std::string(str.get_string(v[i].st_name)) != name) continue;
      if (found++) continue;
      int sec = v[i].st_shndx == 0 ? 0 : -2;
      const char* secs[] = {"", ".text", ".data", ".bss"};
      for (int k = 1; k <= 3; k++) if (w.sections[secs[k]] && w.sections[secs[k]]->get_index() == v[i].st_shndx) sec = k;
      o.open().i(sec).i(v[i].st_value).i(ELF_ST_BIND(v[i].st_info) == ELFIO::STB_GLOBAL).close();
      auto it = as->symbol_indices().find(name);
      if (it == as->symbol_indices().end() || it->second != i) ok = false;
    }
    if (!found) o.open().i(-1).i(0).i(0).close();
    if (found > 1) ok = false;
  }
  o.close();
  // local symbols come first, and the header says how many there are
  size_t locals = 0;
  while (locals < n && ELF_ST_BIND(v[locals].st_info) == ELFIO::STB_LOCAL) locals++;
  for (size_t i = locals; i < n; i++) if (ELF_ST_BIND(v[i].st_info) == ELFIO::STB_LOCAL) ok = false;
  if (st->get_info() != locals) ok = false;
}
template <typename Rela, typename Sym>
static void Relo(Out& o, const char* name, const char* of, bool& ok) {
  auto& w = as->writer();
  o.open();
  if (auto* s = w.sections[name]) {
    size_t n = s->get_size() / sizeof(Rela);
    std::vector<Rela> v(n);
    if (n) memcpy(v.data(), s->get_data(), n * sizeof(Rela));
    auto* st = w.sections[".symtab"];
    ELFIO::string_section_accessor str(w.sections[".strtab"]);
    for (auto& r : v) {
      size_t k = sizeof(Rela) == sizeof(ELFIO::Elf64_Rela) ? uint64_t(r.r_info) >> 32 : r.r_info >> 8;
      int t = sizeof(Rela) == sizeof(ELFIO::Elf64_Rela) ? r.r_info & 0xffffffff : r.r_info & 0xff;
      Sym y;
      if (k >= st->get_size() / sizeof(Sym)) { ok = false; continue; }
      memcpy(&y, st->get_data() + k * sizeof(Sym), sizeof y);
      o.open().i(r.r_offset).s(str.get_string(y.st_name)).i(t).i(r.r_addend).close();
    }
    if (s->get_type() != ELFIO::SHT_RELA || s->get_info() != w.sections[of]->get_index() || s->get_link() != st->get_index()) ok = false;
  }
  o.close();
}

static void Fresh() {
  as = std::make_unique<SimpleAssembler>(kComments[com], cls, &ops);
  source.clear();
}
int main() {
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const Args& a, Out&) {
    cls = I(a[1]);
    com = I(a[2]);
    vary = cls * 7 + com;
    Fresh();
  };
  h["line"] = [](const Args& a, Out&) {
    if (V(6) == 0) source += V(2) ? "\n" : std::string("   ") + kComments[com] + " .word 1, 2 : \n";
    std::string st = Statement(a[2], a.size() > 3 ? a[3] : "[]"), l;
    if (a[1] != "-") l = a[1] + (V(4) == 0 ? " " : "") + ":" + (V(3) == 0 ? "" : Ws());
    else if (!st.empty() && V(3)) l = Ws();
    l += st;
    if (V(3) == 0) l += Ws();
    if (V(4) == 0) l += std::string(kComments[com]) + " a comment, \"quoted\" L9: .data";
    source += l + "\n";
  };
  auto finish = [](const Args& a, Out& o) {
    if (V(3) == 0 && !source.empty()) source.pop_back();  // no newline at the end
    std::istringstream is(source);
    if (getenv("ASM_SHOW")) std::cerr << "-----\n" << source << "\n";
    auto st = as->Parse(is);
    bool exe = a[0] == "exe";
    if (st.ok() && exe) {
      if (I(a[2])) as->set_data_segment_start(I(a[2]));
      auto e = Parts(a[3]);
      if (e[0] == "n" && V(2)) st = as->CreateExecutable(I(a[1]), uint64_t(I(e[1])));
      else st = as->CreateExecutable(I(a[1]), e[1]);
    } else if (st.ok()) {
      st = as->CreateRelocatable();
    }
    if (getenv("ASM_SHOW")) std::cerr << st.message() << "\n";
    if (st.ok()) {
      bool ok = true;
      auto& w = as->writer();
      o.list(Data(".text")).list(Data(".data")).i(w.sections[".bss"]->get_size());
      if (cls == 2) Symbols<ELFIO::Elf64_Sym>(o, ok); else Symbols<ELFIO::Elf32_Sym>(o, ok);
      if (exe) {
        o.open();
        for (auto& s : w.segments) {
          o.i(s->get_virtual_address());
          if (s->get_physical_address() != s->get_virtual_address() || s->get_type() != ELFIO::PT_LOAD) ok = false;
        }
        o.close();
        o.i(w.get_entry());
        if (w.get_type() != ELFIO::ET_EXEC) ok = false;
        if (w.segments.size() == 2) {
          auto* t = w.segments[0];
          auto* d = w.segments[1];
          if (t->get_sections_num() != 1 || t->get_section_index_at(0) != w.sections[".text"]->get_index()) ok = false;
          if (d->get_sections_num() != 2 || d->get_section_index_at(0) != w.sections[".data"]->get_index() ||
              d->get_section_index_at(1) != w.sections[".bss"]->get_index()) ok = false;
          if (!(t->get_flags() & ELFIO::PF_X) || (d->get_flags() & ELFIO::PF_X) || !(d->get_flags() & ELFIO::PF_W)) ok = false;
        }
      } else if (cls == 2) {
        Relo<ELFIO::Elf64_Rela, ELFIO::Elf64_Sym>(o, ".rela.text", ".text", ok);
        Relo<ELFIO::Elf64_Rela, ELFIO::Elf64_Sym>(o, ".rela.data", ".data", ok);
      } else {
        Relo<ELFIO::Elf32_Rela, ELFIO::Elf32_Sym>(o, ".rela.text", ".text", ok);
        Relo<ELFIO::Elf32_Rela, ELFIO::Elf32_Sym>(o, ".rela.data", ".data", ok);
      }
      if (!exe && w.get_type() != ELFIO::ET_REL) ok = false;
      o.b(ok);
    }
    Fresh();
  };
  h["exe"] = finish;
  h["rel"] = finish;
  return vh::Main(h);
}
