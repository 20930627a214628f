// Included once per generated assembler, inside its namespace.
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
class Enc : public VERIF_CAT(VERIF_ISA, EncoderInterfaceBase) {
 public:
  explicit Enc(int p) : prog_(p) {}
  va::Log log;
  using S = std::string_view;  // what lib/abslcompat.py makes of absl::string_view
  using R = ResolverInterface*;
  absl::StatusOr<std::tuple<uint64_t, int>> GetOpcodeEncoding(SlotEnum s, int e, OpcodeEnum o,
                                                              R r) override {
    auto n = Name(o);
    auto c = Ask("op", n, 0, "", log.address, s, e, o, r);
    if (!c.ok()) return c.status();
    return std::make_tuple(c.value(), static_cast<int>(n.size()));
  }
  absl::StatusOr<uint64_t> GetSrcOpEncoding(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                            SourceOpEnum p, int n, R r) override {
    return Ask("s", kSourceOpNames[static_cast<int>(p)], n, t, a, s, e, o, r);
  }
  absl::Status AppendSrcOpRelocation(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                     SourceOpEnum p, int n, R r,
                                     std::vector<RelocationInfo>& v) override {
    return Rel("s", kSourceOpNames[static_cast<int>(p)], n, t, a, s, e, o, r, v);
  }
  absl::StatusOr<uint64_t> GetDestOpEncoding(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                             DestOpEnum p, int n, R r) override {
    return Ask("d", kDestOpNames[static_cast<int>(p)], n, t, a, s, e, o, r);
  }
  absl::Status AppendDestOpRelocation(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                      DestOpEnum p, int n, R r,
                                      std::vector<RelocationInfo>& v) override {
    return Rel("d", kDestOpNames[static_cast<int>(p)], n, t, a, s, e, o, r, v);
  }
  absl::StatusOr<uint64_t> GetListSrcOpEncoding(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                                ListSourceOpEnum p, int n, R r) override {
    return Ask("s*", kListSourceOpNames[static_cast<int>(p)], n, t, a, s, e, o, r);
  }
  absl::StatusOr<uint64_t> GetListDestOpEncoding(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                                 ListDestOpEnum p, int n, R r) override {
    return Ask("d*", kListDestOpNames[static_cast<int>(p)], n, t, a, s, e, o, r);
  }
  absl::StatusOr<uint64_t> GetPredOpEncoding(uint64_t a, S t, SlotEnum s, int e, OpcodeEnum o,
                                             PredOpEnum p, R r) override {
    return Ask("p", kPredOpNames[static_cast<int>(p)], 0, t, a, s, e, o, r);
  }

 private:
  std::string Name(OpcodeEnum o) {
    int i = static_cast<int>(o);
    if (i < 0 || i >= static_cast<int>(OpcodeEnum::kPastMaxValue)) return "?";
    auto& m = va::Progs()[prog_].names;
    auto it = m.find(va::Lower(kOpcodeNames[i]));
    return it == m.end() ? "?" : it->second;
  }
  void Check(uint64_t a, SlotEnum s, int e, R r) {
    if (a != log.address) log.bad = "address";
    if (static_cast<int>(s) != log.slot) log.bad = "slot";
    if (e != log.entry) log.bad = "entry";
    if (r != log.resolver) log.bad = "resolver";
  }
  absl::StatusOr<uint64_t> Ask(const char* k, const std::string& name, int n, S t, uint64_t a,
                               SlotEnum s, int e, OpcodeEnum o, R r) {
    Check(a, s, e, r);
    if (t.find('!') != S::npos || (t.find('#') != S::npos && Name(o).size() % 2 == 1))
      return absl::InvalidArgumentError("no encoding");
    log.calls.push_back({k, *k == 'o' ? name : va::Lower(name), n, std::string(t)});
    log.opcode.push_back(static_cast<int>(o));
    if (log.calls.size() > 64) log.bad = "too many questions";
    return uint64_t{1} << ((log.calls.size() - 1) & 63);
  }
  absl::Status Rel(const char* k, const std::string& name, int n, S t, uint64_t a, SlotEnum s, int e,
                   OpcodeEnum o, R r, std::vector<RelocationInfo>& v) {
    Check(a, s, e, r);
    if (t.find('?') != S::npos) return absl::InvalidArgumentError("no relocation");
    v.push_back(RelocationInfo(static_cast<uint64_t>(o),
                               absl::StrCat(k, " ", va::Lower(name), " ", n, " ", t), 1, 0, 0));
    return absl::OkStatus();
  }
  int prog_;
};
template <typename T>
std::function<va::Result(int, uint64_t, const std::string&)> Matcher(int prog, SlotEnum slot) {
  struct Res : public ResolverInterface {
    absl::StatusOr<uint64_t> Resolve(absl::string_view) override { return 0; }
  };
  struct State {
    Enc enc;
    T matcher;
    Res resolver;
    bool ready;
    explicit State(int p) : enc(p), matcher(&enc) { ready = matcher.Initialize().ok(); }
  };
  return [prog, slot, st = std::shared_ptr<State>()](int entry, uint64_t addr,
                                                     const std::string& text) mutable {
    if (!st) st = std::make_shared<State>(prog);
    va::Result r;
    auto& log = st->enc.log;
    log = va::Log();
    log.address = addr;
    log.slot = static_cast<int>(slot);
    log.entry = entry;
    log.resolver = &st->resolver;
    std::vector<RelocationInfo> rel = {RelocationInfo(99, "before", 7, 8, 9)};
    auto e = st->matcher.Encode(addr, text, entry, &st->resolver, rel);
    r.bad = st->ready ? log.bad : "not initialized";
    if (!e.ok()) return r;
    r.ok = true;
    r.entry = entry;
    auto [code, size] = e.value();
    r.size = size;
    int op = -1;
    for (size_t i = 0; i < 64 && i < log.calls.size(); i++) {
      if (!(code >> i & 1)) continue;
      if (op < 0) op = log.opcode[i];
      if (op != log.opcode[i]) r.bad = "mixed";
      if (log.calls[i].kind != "op") {
        r.calls.push_back(log.calls[i]);
      } else if (r.op.empty()) {
        r.op = log.calls[i].name;
      } else {
        r.bad = "opcodes";
      }
    }
    if (rel.empty() || rel[0].symbol != "before") r.bad = "relocations";
    for (size_t i = 1; i < rel.size(); i++) {
      std::vector<std::string> w;
      std::string t = rel[i].symbol;
      for (int j = 0; j < 3; j++) {
        auto p = t.find(' ');
        w.push_back(t.substr(0, p));
        t = t.substr(p + 1);
      }
      r.relocs.push_back({w[0], w[1], std::stoi(w[2]), t});
      if (static_cast<int>(rel[i].offset) != op) r.bad = "relocations of other opcodes";
    }
    return r;
  };
}
