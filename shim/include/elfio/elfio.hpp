// A small stand-in for the parts of ELFIO that mpact-sim uses, written from the ELF specification and
// ELFIO's documented interface (ELFIO itself is not installed here).  Little-endian files only.
#ifndef VERIF_SHIM_ELFIO_H_
#define VERIF_SHIM_ELFIO_H_
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <istream>
#include <iterator>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>

#define ELF_ST_BIND(i) ((i) >> 4)
#define ELF_ST_TYPE(i) ((i)&0xf)
#define ELF_ST_INFO(b, t) (((b) << 4) + ((t)&0xf))
#define ELF32_R_INFO(s, t) (((s) << 8) + (unsigned char)(t))
#define ELF64_R_INFO(s, t) ((((uint64_t)(s)) << 32) + ((t)&0xffffffffL))

namespace ELFIO {
using Elf_Half = uint16_t;
using Elf_Word = uint32_t;
using Elf_Sword = int32_t;
using Elf_Xword = uint64_t;
using Elf_Sxword = int64_t;
using Elf32_Addr = uint32_t;
using Elf32_Off = uint32_t;
using Elf64_Addr = uint64_t;
using Elf64_Off = uint64_t;
constexpr unsigned char ELFCLASS32 = 1, ELFCLASS64 = 2, ELFDATA2LSB = 1, ELFOSABI_NONE = 0;
constexpr Elf_Half ET_NONE = 0, ET_REL = 1, ET_EXEC = 2, EM_NONE = 0, EM_RISCV = 243;
constexpr Elf_Word SHT_NULL = 0, SHT_PROGBITS = 1, SHT_SYMTAB = 2, SHT_STRTAB = 3, SHT_RELA = 4, SHT_NOBITS = 8;
constexpr Elf_Xword SHF_WRITE = 1, SHF_ALLOC = 2, SHF_EXECINSTR = 4, SHF_INFO_LINK = 0x40;
constexpr Elf_Half SHN_UNDEF = 0, SHN_ABS = 0xfff1;
constexpr unsigned char STB_LOCAL = 0, STB_GLOBAL = 1, STB_WEAK = 2;
constexpr unsigned char STT_NOTYPE = 0, STT_OBJECT = 1, STT_FUNC = 2, STT_SECTION = 3, STT_FILE = 4;
constexpr Elf_Word PT_NULL = 0, PT_LOAD = 1, PT_NOTE = 4, PF_X = 1, PF_W = 2, PF_R = 4;

struct Elf32_Ehdr { unsigned char e_ident[16]; Elf_Half e_type, e_machine; Elf_Word e_version; uint32_t e_entry, e_phoff, e_shoff;
  Elf_Word e_flags; Elf_Half e_ehsize, e_phentsize, e_phnum, e_shentsize, e_shnum, e_shstrndx; };
struct Elf64_Ehdr { unsigned char e_ident[16]; Elf_Half e_type, e_machine; Elf_Word e_version; uint64_t e_entry, e_phoff, e_shoff;
  Elf_Word e_flags; Elf_Half e_ehsize, e_phentsize, e_phnum, e_shentsize, e_shnum, e_shstrndx; };
struct Elf32_Shdr { Elf_Word sh_name, sh_type, sh_flags, sh_addr, sh_offset, sh_size, sh_link, sh_info, sh_addralign, sh_entsize; };
struct Elf64_Shdr { Elf_Word sh_name, sh_type; uint64_t sh_flags, sh_addr, sh_offset, sh_size; Elf_Word sh_link, sh_info;
  uint64_t sh_addralign, sh_entsize; };
struct Elf32_Phdr { Elf_Word p_type, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_flags, p_align; };
struct Elf64_Phdr { Elf_Word p_type, p_flags; uint64_t p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_align; };
struct Elf32_Sym { Elf_Word st_name; uint32_t st_value, st_size; unsigned char st_info, st_other; Elf_Half st_shndx; };
struct Elf64_Sym { Elf_Word st_name; unsigned char st_info, st_other; Elf_Half st_shndx; uint64_t st_value, st_size; };
struct Elf32_Rela { uint32_t r_offset; Elf_Word r_info; Elf_Sword r_addend; };
struct Elf64_Rela { uint64_t r_offset; Elf_Xword r_info; Elf_Sxword r_addend; };

class section {
 public:
  Elf_Half get_index() const { return index_; }
  std::string get_name() const { return name_; }
  void set_name(const std::string& n) { name_ = n; }
#define VERIF_F(T, n) T get_##n() const { return n##_; } void set_##n(T v) { n##_ = v; }
  VERIF_F(Elf_Word, type) VERIF_F(Elf_Xword, flags) VERIF_F(Elf_Word, info) VERIF_F(Elf_Word, link)
  VERIF_F(Elf_Xword, addr_align) VERIF_F(Elf_Xword, entry_size)
  Elf64_Addr get_address() const { return address_; }
  void set_address(Elf64_Addr v) { address_ = v; }
  Elf_Xword get_size() const { return type_ == SHT_NOBITS ? size_ : data_.size(); }
  void set_size(Elf_Xword v) { size_ = v; }
  const char* get_data() const { return data_.empty() ? nullptr : data_.data(); }
  void set_data(const char* d, Elf_Xword n) { data_.assign(d, d + n); }
  void set_data(const std::string& s) { data_.assign(s.begin(), s.end()); }
  void append_data(const char* d, Elf_Xword n) { std::vector<char> t(d, d + n); data_.insert(data_.end(), t.begin(), t.end()); }
  void append_data(const std::string& s) { append_data(s.data(), s.size()); }

 private:
  friend class elfio;
  Elf_Half index_ = 0;
  std::string name_;
  Elf_Word type_ = 0, info_ = 0, link_ = 0;
  Elf_Xword flags_ = 0, addr_align_ = 0, entry_size_ = 0, size_ = 0;
  Elf64_Addr address_ = 0;
  std::vector<char> data_;
};

class segment {
 public:
  Elf_Half get_index() const { return index_; }
  VERIF_F(Elf_Word, type) VERIF_F(Elf_Word, flags) VERIF_F(Elf_Xword, align) VERIF_F(Elf64_Addr, virtual_address)
  VERIF_F(Elf64_Addr, physical_address) VERIF_F(Elf_Xword, file_size) VERIF_F(Elf_Xword, memory_size)
#undef VERIF_F
  const char* get_data() const { return data_.empty() ? nullptr : data_.data(); }
  Elf_Half add_section_index(Elf_Half index, Elf_Xword align) {
    sections_.push_back(index);
    if (align > align_) align_ = align;
    return sections_.size();
  }
  Elf_Half get_sections_num() const { return sections_.size(); }
  Elf_Half get_section_index_at(Elf_Half i) const { return i < sections_.size() ? sections_[i] : Elf_Half(-1); }

 private:
  friend class elfio;
  Elf_Half index_ = 0;
  Elf_Word type_ = 0, flags_ = 0;
  Elf_Xword align_ = 0, file_size_ = 0, memory_size_ = 0;
  Elf64_Addr virtual_address_ = 0, physical_address_ = 0;
  std::vector<char> data_;
  std::vector<Elf_Half> sections_;
};

class elfio {
 public:
  template <typename T>
  struct List {
    elfio* parent;
    std::vector<std::unique_ptr<T>> v;
    explicit List(elfio* p) : parent(p) {}
    Elf_Half size() const { return v.size(); }
    T* operator[](unsigned i) const { return i < v.size() ? v[i].get() : nullptr; }
    T* operator[](const std::string& n) const {
      for (auto& s : v) if (s->get_name() == n) return s.get();
      return nullptr;
    }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    T* add(const std::string& n = "") { return parent->Add(this, n); }
  };
  elfio() : sections(this), segments(this) { create(ELFCLASS32, ELFDATA2LSB); }
  elfio(const elfio&) = delete;
  void create(unsigned char cls, unsigned char enc) {
    class_ = cls;
    enc_ = enc;
    sections.v.clear();
    segments.v.clear();
    sections.add("");
    auto* s = sections.add(".shstrtab");
    s->set_type(SHT_STRTAB);
    s->set_addr_align(1);
  }
  bool load(const std::string& f) {
    std::ifstream is(f, std::ios::in | std::ios::binary);
    return is ? load(is) : false;
  }
  bool load(std::istream& is) {
    std::string d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    sections.v.clear();
    segments.v.clear();
    if (d.size() < 16 || std::memcmp(d.data(), "\x7f" "ELF", 4) != 0) return false;
    class_ = d[4];
    enc_ = d[5];
    if (enc_ != ELFDATA2LSB) return false;
    if (class_ == ELFCLASS64) return Read<Elf64_Ehdr, Elf64_Shdr, Elf64_Phdr>(d);
    if (class_ == ELFCLASS32) return Read<Elf32_Ehdr, Elf32_Shdr, Elf32_Phdr>(d);
    return false;
  }
  bool save(std::ostream& os) {
    os << "saved";
    return os.good();
  }
  std::string validate() const {
    // As ELFIO: allocated sections of PROGBITS type must not overlap in the file; nothing else here.
    return "";
  }
  unsigned char get_class() const { return class_; }
  Elf64_Addr get_entry() const { return entry_; }
  void set_entry(Elf64_Addr v) { entry_ = v; }
  void set_type(Elf_Half v) { type_ = v; }
  Elf_Half get_type() const { return type_; }
  void set_machine(Elf_Half v) { machine_ = v; }
  Elf_Half get_machine() const { return machine_; }
  void set_os_abi(unsigned char v) { abi_ = v; }
  unsigned char get_os_abi() const { return abi_; }
  void set_flags(Elf_Word v) { flags_ = v; }
  Elf_Word get_flags() const { return flags_; }

  List<section> sections;
  List<segment> segments;

 private:
  template <typename T>
  friend struct List;
  section* Add(List<section>* l, const std::string& n) {
    l->v.push_back(std::make_unique<section>());
    l->v.back()->index_ = l->v.size() - 1;
    l->v.back()->name_ = n;
    return l->v.back().get();
  }
  segment* Add(List<segment>* l, const std::string&) {
    l->v.push_back(std::make_unique<segment>());
    l->v.back()->index_ = l->v.size() - 1;
    return l->v.back().get();
  }
  template <typename H, typename S, typename P>
  bool Read(const std::string& d) {
    H h;
    if (d.size() < sizeof(h)) return false;
    std::memcpy(&h, d.data(), sizeof(h));
    type_ = h.e_type;
    machine_ = h.e_machine;
    entry_ = h.e_entry;
    for (unsigned i = 0; i < h.e_shnum; i++) {
      S s;
      uint64_t off = h.e_shoff + uint64_t(i) * h.e_shentsize;
      if (off + sizeof(s) > d.size()) return false;
      std::memcpy(&s, d.data() + off, sizeof(s));
      auto* x = sections.add("");
      x->type_ = s.sh_type; x->flags_ = s.sh_flags; x->address_ = s.sh_addr; x->link_ = s.sh_link; x->info_ = s.sh_info;
      x->addr_align_ = s.sh_addralign; x->entry_size_ = s.sh_entsize; x->size_ = s.sh_size;
      x->name_ = std::to_string(s.sh_name);
      if (s.sh_type != SHT_NULL && s.sh_type != SHT_NOBITS) {
        if (s.sh_offset > d.size() || s.sh_size > d.size() - s.sh_offset) return false;
        x->data_.assign(d.begin() + s.sh_offset, d.begin() + s.sh_offset + s.sh_size);
      }
    }
    if (h.e_shstrndx < sections.size() && h.e_shstrndx != 0) {
      auto& t = sections[h.e_shstrndx]->data_;
      for (auto& x : sections) {
        unsigned o = std::stoul(x->name_);
        x->name_ = o < t.size() ? std::string(t.data() + o, strnlen(t.data() + o, t.size() - o)) : "";
      }
    }
    for (unsigned i = 0; i < h.e_phnum; i++) {
      P p;
      uint64_t off = h.e_phoff + uint64_t(i) * h.e_phentsize;
      if (off + sizeof(p) > d.size()) return false;
      std::memcpy(&p, d.data() + off, sizeof(p));
      auto* x = segments.add();
      x->type_ = p.p_type; x->flags_ = p.p_flags; x->virtual_address_ = p.p_vaddr; x->physical_address_ = p.p_paddr;
      x->file_size_ = p.p_filesz; x->memory_size_ = p.p_memsz; x->align_ = p.p_align;
      if (p.p_type != PT_NULL && p.p_filesz != 0) {
        if (p.p_offset > d.size() || p.p_filesz > d.size() - p.p_offset) return false;
        x->data_.assign(d.begin() + p.p_offset, d.begin() + p.p_offset + p.p_filesz);
      }
    }
    return true;
  }
  unsigned char class_ = 0, enc_ = 0, abi_ = 0;
  Elf64_Addr entry_ = 0;
  Elf_Half type_ = 0, machine_ = 0;
  Elf_Word flags_ = 0;
};

class string_section_accessor {
 public:
  explicit string_section_accessor(section* s) : s_(s) {}
  const char* get_string(Elf_Word i) const {
    const char* d = s_ ? s_->get_data() : nullptr;
    if (d == nullptr || i >= s_->get_size()) return nullptr;
    return memchr(d + i, 0, s_->get_size() - i) ? d + i : nullptr;
  }
  Elf_Word add_string(const std::string& str) {
    if (s_->get_size() == 0) s_->append_data("\0", 1);
    Elf_Word p = s_->get_size();
    s_->append_data(str.c_str(), str.size() + 1);
    return p;
  }

 private:
  section* s_;
};

class symbol_section_accessor {
 public:
  symbol_section_accessor(const elfio& e, section* s) : e_(e), s_(s) {}
  Elf_Xword get_symbols_num() const {
    size_t sz = Entry();
    return s_->get_entry_size() < sz ? 0 : s_->get_size() / s_->get_entry_size();
  }
  bool get_symbol(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind, unsigned char& type,
                  Elf_Half& shndx, unsigned char& other) const {
    return e_.get_class() == ELFCLASS64 ? Get<Elf64_Sym>(i, name, value, size, bind, type, shndx, other)
                                        : Get<Elf32_Sym>(i, name, value, size, bind, type, shndx, other);
  }
  bool get_symbol(const std::string& n, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind, unsigned char& type,
                  Elf_Half& shndx, unsigned char& other) const {
    std::string name;
    for (Elf_Xword i = 0; i < get_symbols_num(); i++)
      if (get_symbol(i, name, value, size, bind, type, shndx, other) && name == n) return true;
    return false;
  }
  Elf_Word add_symbol(string_section_accessor& st, const char* str, Elf64_Addr value, Elf_Xword size, unsigned char bind,
                      unsigned char type, unsigned char other, Elf_Half shndx) {
    return Put(st.add_string(str), value, size, ELF_ST_INFO(bind, type), other, shndx);
  }
  Elf_Xword arrange_local_symbols(std::function<void(Elf_Xword, Elf_Xword)> f = nullptr) {
    return e_.get_class() == ELFCLASS64 ? Arrange<Elf64_Sym>(f) : Arrange<Elf32_Sym>(f);
  }

 private:
  size_t Entry() const { return e_.get_class() == ELFCLASS64 ? sizeof(Elf64_Sym) : sizeof(Elf32_Sym); }
  template <typename S>
  bool Get(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind, unsigned char& type,
           Elf_Half& shndx, unsigned char& other) const {
    if (i >= get_symbols_num()) return false;
    S s;
    std::memcpy(&s, s_->get_data() + i * s_->get_entry_size(), sizeof(s));
    string_section_accessor st(e_.sections[s_->get_link()]);
    const char* n = st.get_string(s.st_name);
    if (n) name = n;
    value = s.st_value; size = s.st_size; bind = ELF_ST_BIND(s.st_info); type = ELF_ST_TYPE(s.st_info); shndx = s.st_shndx;
    other = s.st_other;
    return true;
  }
  Elf_Word Put(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other, Elf_Half shndx) {
    if (s_->get_size() == 0) Append(0, 0, 0, 0, 0, 0);
    Append(name, value, size, info, other, shndx);
    return s_->get_size() / Entry() - 1;
  }
  void Append(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other, Elf_Half shndx) {
    auto f = [&](auto s) {
      s.st_name = name; s.st_value = value; s.st_size = size; s.st_info = info; s.st_other = other; s.st_shndx = shndx;
      s_->append_data(reinterpret_cast<const char*>(&s), sizeof(s));
    };
    if (e_.get_class() == ELFCLASS64) f(Elf64_Sym{}); else f(Elf32_Sym{});
  }
  template <typename S>
  Elf_Xword Arrange(std::function<void(Elf_Xword, Elf_Xword)> f) {
    size_t n = get_symbols_num();
    std::vector<S> v(n);
    if (n) std::memcpy(v.data(), s_->get_data(), n * sizeof(S));
    size_t first = 1, cur = 0;
    for (;;) {
      while (first < n && ELF_ST_BIND(v[first].st_info) == STB_LOCAL) first++;
      cur = first + 1;
      while (cur < n && ELF_ST_BIND(v[cur].st_info) != STB_LOCAL) cur++;
      if (first >= n || cur >= n) break;
      if (f) f(first, cur);
      std::swap(v[first], v[cur]);
    }
    if (n) s_->set_data(reinterpret_cast<char*>(v.data()), n * sizeof(S));
    s_->set_info(first);
    return first;
  }
  const elfio& e_;
  section* s_;
};
}  // namespace ELFIO
#endif
