// Writes little ELF files.
#ifndef VERIF_ELFGEN_H_
#define VERIF_ELFGEN_H_
#include <cstdint>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
struct ElfGen {
  struct Seg {
    uint32_t type = 1, flags = 5;
    uint64_t vaddr = 0, paddr = 0, memsz = 0;
    std::string data;
  };
  struct Sym {
    std::string name;
    uint64_t value = 0, size = 0;
    int type = 0, bind = 1, shndx = 1;
  };
  int cls = 2;
  uint64_t entry = 0;
  std::vector<Seg> segs;
  std::vector<std::vector<Sym>> symtabs;

  void Write(const std::string& file) const {
    std::ofstream os(file, std::ios::binary | std::ios::trunc);
    std::string b = Bytes();
    os.write(b.data(), b.size());
  }
  std::string Bytes() const { return cls == 2 ? Make<uint64_t>() : Make<uint32_t>(); }

 private:
  template <typename T>
  static void P(std::string& s, T v) { s.append(reinterpret_cast<char*>(&v), sizeof(T)); }
  template <typename A>
  std::string Make() const {
    constexpr bool k64 = sizeof(A) == 8;
    int eh = k64 ? 64 : 52, ph = k64 ? 56 : 32, sh = k64 ? 64 : 40;
    std::string body;
    uint64_t at = eh + uint64_t(ph) * segs.size();
    std::string phs;
    for (auto& s : segs) {
      uint64_t off = at + body.size();
      body += s.data;
      P<uint32_t>(phs, s.type);
      if (k64) P<uint32_t>(phs, s.flags);
      P<A>(phs, off); P<A>(phs, s.vaddr); P<A>(phs, s.paddr); P<A>(phs, s.data.size());
      P<A>(phs, s.memsz < s.data.size() ? s.data.size() : s.memsz);
      if (!k64) P<uint32_t>(phs, s.flags);
      P<A>(phs, 1);
    }
    struct Sec { uint32_t name, type; uint64_t off, size; uint32_t link; uint64_t ent; };
    std::string names("\0.shstrtab\0.text\0.symtab\0.strtab\0", 32);
    std::vector<Sec> secs{{0, 0, 0, 0, 0, 0}};
    secs.push_back({11, 1, at, 0, 0, 0});
    for (auto& t : symtabs) {
      std::string st(1, '\0'), sy(k64 ? 24 : 16, '\0');
      for (auto& s : t) {
        uint32_t n = st.size();
        st += s.name + std::string(1, '\0');
        unsigned char info = (s.bind << 4) | s.type;
        P<uint32_t>(sy, n);
        if (k64) { P<uint8_t>(sy, info); P<uint8_t>(sy, 0); P<uint16_t>(sy, s.shndx); P<uint64_t>(sy, s.value); P<uint64_t>(sy, s.size); }
        else { P<uint32_t>(sy, s.value); P<uint32_t>(sy, s.size); P<uint8_t>(sy, info); P<uint8_t>(sy, 0); P<uint16_t>(sy, s.shndx); }
      }
      secs.push_back({17, 2, at + body.size(), sy.size(), (uint32_t)secs.size() + 1, uint64_t(k64 ? 24 : 16)});
      body += sy;
      secs.push_back({25, 3, at + body.size(), st.size(), 0, 0});
      body += st;
    }
    secs.push_back({1, 3, at + body.size(), names.size(), 0, 0});
    body += names;
    uint64_t shoff = at + body.size();
    std::string h("\x7f" "ELF", 4);
    h += char(cls); h += char(1); h += char(1); h.resize(16);
    P<uint16_t>(h, 2); P<uint16_t>(h, 243); P<uint32_t>(h, 1); P<A>(h, entry); P<A>(h, eh); P<A>(h, shoff);
    P<uint32_t>(h, 0); P<uint16_t>(h, eh); P<uint16_t>(h, ph); P<uint16_t>(h, segs.size()); P<uint16_t>(h, sh);
    P<uint16_t>(h, secs.size()); P<uint16_t>(h, secs.size() - 1);
    std::string out = h + phs + body;
    for (auto& s : secs) {
      P<uint32_t>(out, s.name); P<uint32_t>(out, s.type); P<A>(out, 0); P<A>(out, 0); P<A>(out, s.off); P<A>(out, s.size);
      P<uint32_t>(out, s.link); P<uint32_t>(out, 0); P<A>(out, 1); P<A>(out, s.ent);
    }
    return out;
  }
};
#endif
