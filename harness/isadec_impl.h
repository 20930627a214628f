// Included once per generated decoder, inside its namespace.
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
class Enc : public VERIF_CAT(VERIF_ISA, EncodingBase) {
 public:
  void Set(SlotEnum s, int e, const std::string& op) {
    int n = static_cast<int>(OpcodeEnum::kPastMaxValue);
    for (int i = 0; i < n; i++)
      if (vi::Lower(kOpcodeNames[i]) == vi::Plain(op)) ops_[{static_cast<int>(s), e}] = static_cast<OpcodeEnum>(i);
  }
  OpcodeEnum GetOpcode(SlotEnum s, int e) { return ops_.at({static_cast<int>(s), e}); }
  PredicateOperandInterface* GetPredicate(SlotEnum s, int e, OpcodeEnum o, PredOpEnum p) {
    return new vi::Pred(vi::Lower(kPredOpNames[static_cast<int>(p)]) + ".p" + X(s, e, o));
  }
  SourceOperandInterface* GetSource(SlotEnum s, int e, OpcodeEnum o, SourceOpEnum p, int no) {
    auto n = vi::Lower(kSourceOpNames[static_cast<int>(p)]);
    return new vi::Src(n + ".s" + std::to_string(no) + X(s, e, o), vi::Value(n));
  }
  std::vector<SourceOperandInterface*> GetSources(SlotEnum s, int e, OpcodeEnum o,
                                                  ListSourceOpEnum p, int no) {
    auto n = vi::Lower(kListSourceOpNames[static_cast<int>(p)]);
    auto t = n + ".s" + std::to_string(no) + X(s, e, o);
    return {new vi::Src(t + ".0", vi::Value(n)), new vi::Src(t + ".1", 0)};
  }
  DestinationOperandInterface* GetDestination(SlotEnum s, int e, OpcodeEnum o, DestOpEnum p, int no,
                                              int lat) {
    return new vi::Dst(vi::Lower(kDestOpNames[static_cast<int>(p)]) + ".d" + std::to_string(no) +
                           X(s, e, o), lat);
  }
  std::vector<DestinationOperandInterface*> GetDestinations(SlotEnum s, int e, OpcodeEnum o,
                                                            ListDestOpEnum p, int no,
                                                            const std::vector<int>& lat) {
    auto t = vi::Lower(kListDestOpNames[static_cast<int>(p)]) + ".d" + std::to_string(no) +
             X(s, e, o) + (lat.size() == 1 ? "" : "!");
    return {new vi::Dst(t + ".0", lat.at(0)), new vi::Dst(t + ".1", lat.at(0))};
  }
  int GetLatency(SlotEnum s, int e, OpcodeEnum o, DestOpEnum, int no) {
    return X(s, e, o).empty() ? 30 + no : 900;
  }
  std::vector<int> GetLatency(SlotEnum s, int e, OpcodeEnum o, ListDestOpEnum, int no) {
    return {X(s, e, o).empty() ? 40 + no : 900};
  }
  ResourceOperandInterface* GetSimpleResourceOperand(SlotEnum s, int e, OpcodeEnum o,
                                                     SimpleResourceVector& v, int end) {
    std::vector<std::string> n;
    for (auto r : v) n.push_back(vi::Lower(kSimpleResourceNames[static_cast<int>(r)]));
    return new vi::Res(n, false, 0, end, !X(s, e, o).empty());
  }
  ResourceOperandInterface* GetComplexResourceOperand(SlotEnum s, int e, OpcodeEnum o,
                                                      ComplexResourceEnum r, int b, int end) {
    return new vi::Res({vi::Lower(kComplexResourceNames[static_cast<int>(r)])}, true, b, end,
                       !X(s, e, o).empty());
  }
  std::vector<ResourceOperandInterface*> GetComplexResourceOperands(SlotEnum s, int e, OpcodeEnum o,
                                                                    ListComplexResourceEnum r,
                                                                    int b, int end) {
    return {new vi::Res({vi::Lower(kListComplexResourceNames[static_cast<int>(r)])}, true, b, end,
                        !X(s, e, o).empty())};
  }

 private:
  std::string X(SlotEnum s, int e, OpcodeEnum o) {
    auto it = ops_.find({static_cast<int>(s), e});
    return it != ops_.end() && it->second == o ? "" : "!";
  }
  std::map<std::pair<int, int>, OpcodeEnum> ops_;
};
