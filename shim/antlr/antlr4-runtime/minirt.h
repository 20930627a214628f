// A small stand-in for the ANTLR 4 C++ runtime: a longest-match lexer and a backtracking (memoising, all
// alternatives in order) parser that interpret the tables lib/miniantlr.py writes from the repository's .g4 files.
#ifndef VERIF_MINIRT_H_
#define VERIF_MINIRT_H_
#include <algorithm>
#include <cstddef>
#include <deque>
#include <exception>
#include <istream>
#include <iterator>
#include <map>
#include <memory>
#include <regex>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <cstdint>
#include <unordered_map>
#include <iostream>

#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

namespace antlrcpp { class BitSet {}; }
namespace antlr4 {
namespace dfa { class DFA {}; }
namespace atn { class ATNConfigSet {}; }
class Recognizer { public: virtual ~Recognizer() = default; };
class Parser;
class Token {
 public:
  std::string text; size_t line = 0, col = 0, type = 0;
  std::string getText() const { return text; }
  size_t getLine() const { return line; }
  size_t getCharPositionInLine() const { return col; }
  size_t getType() const { return type; }
};
class BaseErrorListener {
 public:
  virtual ~BaseErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) {}
};
namespace tree {
class ParseTree {
 public:
  virtual ~ParseTree() = default;
  ParseTree* parent = nullptr;
  std::vector<ParseTree*> children;
  virtual std::string getText() = 0;
};
class TerminalNode : public ParseTree {
 public:
  Token* symbol = nullptr;
  Token* getSymbol() const { return symbol; }
  std::string getText() override { return symbol->getText(); }
};
}  // namespace tree
class ParserRuleContext : public tree::ParseTree {
 public:
  Token* start = nullptr;
  Token* stop = nullptr;
  int rule_index = -1;
  Token* getStart() const { return start; }
  Token* getStop() const { return stop; }
  std::string getText() override { std::string r; for (auto* c : children) r += c->getText(); return r; }
  template <typename T> std::vector<T*> rules(int idx) const {
    std::vector<T*> r;
    for (auto* c : children) { auto* p = dynamic_cast<ParserRuleContext*>(c); if (p && p->rule_index == idx) r.push_back(static_cast<T*>(p)); }
    return r;
  }
  std::vector<tree::TerminalNode*> toks(size_t type) const {
    std::vector<tree::TerminalNode*> r;
    for (auto* c : children) { auto* p = dynamic_cast<tree::TerminalNode*>(c); if (p && p->symbol->type == type) r.push_back(p); }
    return r;
  }
  template <typename V> static typename V::value_type at(const V& v, size_t i) { return i < v.size() ? v[i] : nullptr; }
};
class ANTLRInputStream {
 public:
  std::string text;
  void load(std::istream& is, bool = false) { text.assign(std::istreambuf_iterator<char>(is), {}); }
  void load(const std::string& s, bool = false) { text = s; }
};
struct LexRule { int type; const char* regex; bool hidden; };
class Lexer : public Recognizer {
 public:
  Lexer(ANTLRInputStream* in, const std::vector<LexRule>& rules) : in_(in), rules_(rules) {}
  // Tokens of the whole input; a character no rule matches gives a token of type 0.
  void run(std::deque<Token>* out) {
    struct C { pcre2_code* c; pcre2_match_data* m; };
    std::vector<C> cs;
    for (auto& r : rules_) {
      int e; PCRE2_SIZE o;
      auto* c = pcre2_compile((PCRE2_SPTR)r.regex, PCRE2_ZERO_TERMINATED, PCRE2_ANCHORED | PCRE2_DOTALL, &e, &o, nullptr);
      if (!c) { std::cerr << "miniantlr: bad regex " << r.regex << "\n"; std::abort(); }
      cs.push_back({c, pcre2_match_data_create_from_pattern(c, nullptr)});
    }
    const std::string& t = in_->text;
    size_t pos = 0, line = 1, col = 0;
    while (pos < t.size()) {
      size_t best = 0; int bi = -1;
      for (size_t i = 0; i < cs.size(); i++) {
        int n = pcre2_match(cs[i].c, (PCRE2_SPTR)t.data(), t.size(), pos, 0, cs[i].m, nullptr);
        if (n <= 0) continue;
        auto* ov = pcre2_get_ovector_pointer(cs[i].m);
        if (ov[1] - pos > best) { best = ov[1] - pos; bi = i; }
      }
      Token k; k.line = line; k.col = col;
      if (bi < 0) { best = 1; k.type = 0; } else k.type = rules_[bi].type;
      k.text = t.substr(pos, best);
      if (bi < 0 || !rules_[bi].hidden) out->push_back(k);
      for (size_t i = 0; i < best; i++) { if (t[pos + i] == '\n') { line++; col = 0; } else col++; }
      pos += best;
    }
    for (auto& c : cs) { pcre2_match_data_free(c.m); pcre2_code_free(c.c); }
    Token e; e.type = size_t(-1); e.text = "<EOF>"; e.line = line; e.col = col;
    out->push_back(e);
  }
 private:
  ANTLRInputStream* in_;
  const std::vector<LexRule>& rules_;
};
class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer* l) { l->run(&tokens); }
  std::deque<Token> tokens;
};
struct GNode {
  enum K { kTok, kRule, kSeq, kAlt, kOpt, kStar, kPlus, kLabel } k;
  int id;                    // token type / rule / label
  std::vector<GNode> c;
};
struct GRule { std::string name; bool left_rec; std::vector<GNode> alts; };
class Parser : public Recognizer {
 public:
  Parser(CommonTokenStream* ts, const std::vector<GRule>& g) : t_(ts->tokens), g_(g) {}
  ~Parser() override { for (auto* p : owned_) delete p; }
  void removeErrorListeners() { ls_.clear(); }
  void addErrorListener(BaseErrorListener* l) { ls_.push_back(l); }
  size_t getNumberOfSyntaxErrors() const { return errors_; }

 protected:
  struct RR;
  struct Item { int label; Token* tok; const RR* rr; const Item* prev; };
  struct Res { size_t end; const Item* items; };
  struct RR { int rule; size_t begin, end; const Item* items; };
  using V = std::vector<Res>;
  virtual ParserRuleContext* make(int rule) = 0;
  virtual void label(ParserRuleContext* c, int label, Token* t, ParserRuleContext* r) = 0;

  ParserRuleContext* parse(int rule) {
    const auto& rs = ruleAt(rule, pos_, 0);
    const RR* best = nullptr;
    for (auto* r : rs) if (!best || r->end > best->end) best = r;
    bool bad = best == nullptr;
    if (best && best->end < t_.size() && !(t_[best->end].type == size_t(-1))) bad = true;
    if (bad) {
      errors_++;
      Token* o = &t_[std::min(far_, t_.size() - 1)];
      for (auto* l : ls_) l->syntaxError(this, o, o->line, o->col, "no viable alternative at input '" + o->text + "'", nullptr);
      auto* c = make(rule); owned_.push_back(c); c->rule_index = rule; c->start = &t_[0]; c->stop = &t_[0];
      return c;
    }
    pos_ = best->end;
    return build(best);
  }

 private:
  const Item* add(const Item* prev, int label, Token* t, const RR* r) { items_.push_back({label, t, r, prev}); return &items_.back(); }
  static void put(V* v, const Res& r) { for (auto& x : *v) if (x.end == r.end) return; v->push_back(r); }
  V m(const GNode& n, const V& in) {
    V out;
    switch (n.k) {
      case GNode::kTok:
        for (auto& r : in) {
          if (r.end < t_.size() && t_[r.end].type == size_t(n.id)) put(&out, {r.end + 1, add(r.items, -1, &t_[r.end], nullptr)});
          else far_ = std::max(far_, r.end);
        }
        break;
      case GNode::kRule:
        for (auto& r : in) for (auto* x : ruleAt(n.id, r.end, 0)) put(&out, {x->end, add(r.items, -1, nullptr, x)});
        break;
      case GNode::kSeq: {
        out = in;
        for (auto& c : n.c) { out = m(c, out); if (out.empty()) break; }
        break;
      }
      case GNode::kAlt:
        for (auto& r : in) for (auto& c : n.c) for (auto& x : m(c, {r})) put(&out, x);
        break;
      case GNode::kOpt:
        for (auto& r : in) { for (auto& x : m(n.c[0], {r})) put(&out, x); put(&out, r); }
        break;
      case GNode::kStar: case GNode::kPlus: {
        std::vector<V> lv{in};
        std::map<size_t, bool> seen;
        for (auto& r : in) seen[r.end] = true;
        while (true) {
          V nx, f = m(n.c[0], lv.back());
          for (auto& r : f) if (!seen.count(r.end)) { seen[r.end] = true; nx.push_back(r); }
          if (nx.empty()) break;
          lv.push_back(nx);
        }
        for (size_t i = lv.size(); i-- > (n.k == GNode::kPlus ? 1u : 0u);) for (auto& r : lv[i]) out.push_back(r);
        break;
      }
      case GNode::kLabel:
        for (auto& r : in)
          for (auto x : m(n.c[0], {r})) {
            if (x.items != r.items) x.items = add(x.items->prev, n.id, x.items->tok, x.items->rr);
            put(&out, x);
          }
        break;
    }
    return out;
  }
  const RR* mk(int rule, size_t b, const Res& r) { rrs_.push_back({rule, b, r.end, r.items}); return &rrs_.back(); }
  static bool self(const GNode& n, int rule) { return n.k == GNode::kRule ? n.id == rule : n.k == GNode::kLabel && self(n.c[0], rule); }
  static int lab(const GNode& n) { return n.k == GNode::kLabel ? n.id : -1; }
  const std::vector<const RR*>& ruleAt(int rule, size_t pos, int prec) {
    auto key = std::make_tuple(rule, pos, prec);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    std::vector<const RR*> out;
    const GRule& g = g_[rule];
    auto have = [&](size_t e) { for (auto* x : out) if (x->end == e) return true; return false; };
    if (!g.left_rec) {
      for (auto& a : g.alts) for (auto& r : m(a, {{pos, nullptr}})) if (!have(r.end)) out.push_back(mk(rule, pos, r));
    } else {
      // Precedence climbing: an earlier alternative binds tighter.
      int n = g.alts.size();
      for (int i = 0; i < n; i++) {
        const GNode& a = g.alts[i];
        if (a.k == GNode::kSeq && self(a.c.front(), rule)) continue;
        V st{{pos, nullptr}};
        bool prefix = a.k == GNode::kSeq && self(a.c.back(), rule);
        if (prefix) {
          for (size_t j = 0; j + 1 < a.c.size(); j++) st = m(a.c[j], st);
          V nx;
          for (auto& r : st) for (auto* x : ruleAt(rule, r.end, n - i)) put(&nx, {x->end, add(r.items, lab(a.c.back()), nullptr, x)});
          st = nx;
        } else {
          st = m(a, st);
        }
        for (auto& r : st) if (!have(r.end)) out.push_back(mk(rule, pos, r));
      }
      for (size_t k = 0; k < out.size(); k++) {
        for (int i = 0; i < n; i++) {
          const GNode& a = g.alts[i];
          int pr = n - i;
          if (!(a.k == GNode::kSeq && self(a.c.front(), rule)) || pr < prec) continue;
          const RR* lhs = out[k];
          V st{{lhs->end, add(nullptr, lab(a.c.front()), nullptr, lhs)}};
          for (size_t j = 1; j + 1 < a.c.size(); j++) st = m(a.c[j], st);
          for (auto& r : st) for (auto* x : ruleAt(rule, r.end, pr + 1)) {
            if (!have(x->end)) out.push_back(mk(rule, pos, {x->end, add(r.items, lab(a.c.back()), nullptr, x)}));
          }
        }
      }
      std::sort(out.begin(), out.end(), [](const RR* x, const RR* y) { return x->end > y->end; });
    }
    return memo_[key] = out;
  }
  ParserRuleContext* build(const RR* r) {
    auto* c = make(r->rule);
    owned_.push_back(c);
    c->rule_index = r->rule;
    c->start = &t_[r->begin];
    c->stop = &t_[r->end > r->begin ? r->end - 1 : r->begin];
    std::vector<const Item*> v;
    for (auto* i = r->items; i; i = i->prev) v.push_back(i);
    for (size_t k = v.size(); k-- > 0;) {
      auto* i = v[k];
      if (i->tok) {
        auto* n = new tree::TerminalNode;
        owned_.push_back(n);
        n->symbol = i->tok;
        n->parent = c;
        c->children.push_back(n);
        if (i->label >= 0) label(c, i->label, i->tok, nullptr);
      } else {
        auto* x = build(i->rr);
        x->tree::ParseTree::parent = c;
        c->children.push_back(x);
        if (i->label >= 0) label(c, i->label, nullptr, x);
      }
    }
    return c;
  }
  std::deque<Token>& t_;
  const std::vector<GRule>& g_;
  std::vector<BaseErrorListener*> ls_;
  size_t errors_ = 0, far_ = 0, pos_ = 0;
  std::deque<Item> items_;
  std::deque<RR> rrs_;
  std::map<std::tuple<int, size_t, int>, std::vector<const RR*>> memo_;
  std::vector<tree::ParseTree*> owned_;
};
}  // namespace antlr4
#endif
