"""A small replacement for the ANTLR 4 tool: writes <Grammar>Lexer.h and <Grammar>Parser.h (tables for
shim/antlr/antlr4-runtime/minirt.h plus context classes with ANTLR's accessors) from a combined grammar.
usage: generate(g4_path, namespaces, out_dir)"""
import os
import re


class GrammarError(Exception):
    pass


TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)|(?P<sym>->|\*\?|[:;|()*+?=~.])""", re.S)


def lex(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise GrammarError("cannot read grammar at %r" % text[pos:pos + 40])
        pos = m.end()
        for k in ("lit", "set", "id", "sym"):
            if m.group(k) is not None:
                out.append((k, m.group(k)))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ("eof", "")

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise GrammarError("expected %s, got %s" % (v, x))
        self.i += 1
        return x

    def grammar(self):
        rules = []
        self.take("grammar")
        self.take()
        self.take(";")
        while self.peek()[0] != "eof":
            frag = self.peek()[1] == "fragment"
            if frag:
                self.take()
            name = self.take()[1]
            self.take(":")
            body = self.alts()
            hidden = False
            if self.peek()[1] == "->":
                while self.peek()[1] != ";":
                    hidden = hidden or self.peek()[1] in ("HIDDEN", "skip")
                    self.take()
            self.take(";")
            rules.append((name, body, frag, hidden))
        return rules

    def alts(self):
        a = [self.seq()]
        while self.peek()[1] == "|" and self.peek()[0] == "sym":
            self.take()
            a.append(self.seq())
        return ("alt", a) if len(a) > 1 else a[0]

    def seq(self):
        s = []
        while not (self.peek()[0] == "sym" and self.peek()[1] in ("|", ")", ";", "->")):
            s.append(self.elem())
        return ("seq", s)

    def elem(self):
        k, v = self.peek()
        label = None
        if k == "id" and self.peek(1) == ("sym", "="):
            label = v
            self.take()
            self.take()
            k, v = self.peek()
        neg = False
        if v == "~" and k == "sym":
            self.take()
            neg = True
            k, v = self.peek()
        if k == "sym" and v == "(":
            self.take()
            n = self.alts()
            self.take(")")
        elif k == "lit":
            self.take()
            n = ("lit", re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), v[1:-1]))
        elif k == "set":
            self.take()
            n = ("set", v)
        elif k == "id":
            self.take()
            n = ("tok", v) if v[0].isupper() else ("rule", v)
        elif k == "sym" and v == ".":
            self.take()
            n = ("any",)
        else:
            raise GrammarError("unexpected %s" % v)
        if neg:
            n = ("not", n)
        if label:
            n = ("label", label, n)
        k, v = self.peek()
        if k == "sym" and v in ("*", "+", "?", "*?"):
            self.take()
            n = ({"*": "star", "+": "plus", "?": "opt", "*?": "lazy"}[v], n)
        return n


def generate(g4, namespaces, out_dir):
    rules = P(lex(open(g4).read())).grammar()
    name = os.path.splitext(os.path.basename(g4))[0]
    prules = [(n, b) for n, b, _, _ in rules if n[0].islower()]
    lrules = [(n, b, f, h) for n, b, f, h in rules if n[0].isupper()]
    ldict = {n: b for n, b, _, _ in lrules}
    lit_tok = {}
    for n, b, f, _ in lrules:
        if not f and b[0] == "seq" and len(b[1]) == 1 and b[1][0][0] == "lit":
            lit_tok.setdefault(b[1][0][1], n)
    types, implicit = {}, []

    def implicit_lits(n):
        if n[0] == "lit":
            if n[1] not in lit_tok:
                lit_tok[n[1]] = "T__%d" % len(implicit)
                implicit.append(n[1])
        elif n[0] in ("seq", "alt"):
            for c in n[1]:
                implicit_lits(c)
        elif n[0] == "label":
            implicit_lits(n[2])
        elif n[0] in ("star", "plus", "opt"):
            implicit_lits(n[1])
        elif n[0] not in ("tok", "rule"):
            raise GrammarError("unsupported in a parser rule: %s" % n[0])
    for _, b in prules:
        implicit_lits(b)
    lexers = []
    for s in implicit:
        types[lit_tok[s]] = len(types) + 1
        lexers.append((types[lit_tok[s]], re.escape(s).replace("/", "\\/"), False))

    def rx(n):
        k = n[0]
        if k == "lit":
            return re.escape(n[1])
        if k == "set":
            return n[1]
        if k == "any":
            return "[\\s\\S]"
        if k == "tok":
            return "(?:" + rx(ldict[n[1]]) + ")"
        if k == "seq":
            return "".join(rx(c) for c in n[1])
        if k == "alt":
            return "(?:" + "|".join(rx(c) for c in n[1] if not (c[0] == "seq" and c[1] and c[1][0] == ("tok", "EOF"))) + ")"
        if k == "not":
            if n[1][0] != "set":
                raise GrammarError("~ of a non-set")
            return "[^" + n[1][1][1:]
        q = {"star": "*", "plus": "+", "opt": "?", "lazy": "*?"}[k]
        return "(?:" + rx(n[1]) + ")" + q

    def tops(b):
        if b[0] == "alt":
            return [r for c in b[1] for r in tops(c)]
        if b[0] == "seq" and len(b[1]) == 1 and b[1][0][0] == "tok":
            return tops(ldict[b[1][0][1]])
        if b[0] == "seq" and len(b[1]) == 1 and b[1][0][0] == "alt":
            return tops(b[1][0])
        return [rx(b)]
    for n, b, frag, hid in lrules:
        if frag:
            continue
        types[n] = len(types) + 1
        for r in tops(b):
            lexers.append((types[n], r, hid))
    types["EOF"] = -1
    ridx = {n: i for i, (n, _) in enumerate(prules)}

    def tname(n):
        return lit_tok[n[1]] if n[0] == "lit" else n[1]

    labels = []

    def ser(n, rule):
        k = n[0]
        if k in ("tok", "lit"):
            if tname(n) not in types:
                raise GrammarError("unknown token " + tname(n))
            return "{GNode::kTok, %d, {}}" % types[tname(n)]
        if k == "rule":
            return "{GNode::kRule, %d, {}}" % ridx[n[1]]
        if k in ("seq", "alt"):
            if k == "seq" and len(n[1]) == 1:
                return ser(n[1][0], rule)
            return "{GNode::%s, 0, {%s}}" % ("kSeq" if k == "seq" else "kAlt", ", ".join(ser(c, rule) for c in n[1]))
        if k == "label":
            key = (rule, n[1])
            if key not in labels:
                labels.append(key)
            return "{GNode::kLabel, %d, {%s}}" % (labels.index(key), ser(n[2], rule))
        return "{GNode::%s, 0, {%s}}" % ({"star": "kStar", "plus": "kPlus", "opt": "kOpt"}[k], ser(n[1], rule))

    def counts(n):
        k = n[0]
        if k in ("tok", "rule"):
            return {n: 1}
        if k == "lit":
            return {("tok", tname(n)): 1} if not tname(n).startswith("T__") else {}
        if k == "label":
            return counts(n[2])
        if k == "seq":
            r = {}
            for c in n[1]:
                for x, v in counts(c).items():
                    r[x] = r.get(x, 0) + v
            return r
        if k == "alt":
            r = {}
            for c in n[1]:
                for x, v in counts(c).items():
                    r[x] = max(r.get(x, 0), v)
            return r
        r = counts(n[1])
        return {x: (v if k == "opt" else 2) for x, v in r.items()}

    def label_type(n):
        """'tok' or the rule name the label refers to."""
        if n[0] in ("tok", "lit"):
            return "tok"
        if n[0] == "rule":
            return n[1]
        if n[0] in ("seq", "alt"):
            return label_type(n[1][0])
        return label_type(n[1] if n[0] != "label" else n[2])

    def find_labels(n, out):
        if n[0] == "label":
            out[n[1]] = label_type(n[2])
        elif n[0] in ("seq", "alt"):
            for c in n[1]:
                find_labels(c, out)
        elif n[0] in ("star", "plus", "opt"):
            find_labels(n[1], out)

    def cname(r):
        return r[0].upper() + r[1:] + "Context"

    def starts_self(b, r):
        n = b[1][0] if b[0] == "seq" and b[1] else b
        if n[0] == "label":
            n = n[2]
        return n == ("rule", r)
    rows, classes, makes, methods, sets = [], [], [], [], []
    for r, b in prules:
        alts = b[1] if b[0] == "alt" else [b]
        lr = any(starts_self(a, r) for a in alts)
        rows.append('    {"%s", %s, {%s}},' % (r, "true" if lr else "false", ",\n      ".join(ser(a, r) for a in alts)))
        lines, ls = [], {}
        find_labels(b, ls)
        for lname, lt in ls.items():
            lines.append("    %s* %s = nullptr;" % ("antlr4::Token" if lt == "tok" else cname(lt), lname))
            sets.append("      case %d: static_cast<%s*>(c)->%s = %s; break;" % (
                labels.index((r, lname)), cname(r), lname, "t" if lt == "tok" else "static_cast<%s*>(r)" % cname(lt)))
        for (k, v), n in sorted(counts(b).items()):
            if v == "EOF":
                continue
            if v in ls:
                raise GrammarError("label %s hides an accessor" % v)
            if k == "tok":
                if n > 1:
                    lines.append("    std::vector<antlr4::tree::TerminalNode*> %s() const { return toks(%d); }" % (v, types[v]))
                    lines.append("    antlr4::tree::TerminalNode* %s(size_t i) const { return at(toks(%d), i); }" % (v, types[v]))
                else:
                    lines.append("    antlr4::tree::TerminalNode* %s() const { return at(toks(%d), 0); }" % (v, types[v]))
            else:
                t, i = cname(v), ridx[v]
                if n > 1:
                    lines.append("    std::vector<%s*> %s() const { return rules<%s>(%d); }" % (t, v, t, i))
                    lines.append("    %s* %s(size_t i) const { return at(rules<%s>(%d), i); }" % (t, v, t, i))
                else:
                    lines.append("    %s* %s() const { return at(rules<%s>(%d), 0); }" % (t, v, t, i))
        classes.append("  class %s : public antlr4::ParserRuleContext {\n   public:\n%s\n  };" % (cname(r), "\n".join(lines)))
        makes.append("      case %d: return new %s;" % (ridx[r], cname(r)))
        methods.append("  %s* %s() { return static_cast<%s*>(parse(%d)); }" % (cname(r), r, cname(r), ridx[r]))
    op = "".join("namespace %s {\n" % n for n in namespaces)
    cl = "}\n" * len(namespaces)
    os.makedirs(out_dir, exist_ok=True)
    with open(os.path.join(out_dir, name + "Lexer.h"), "w") as f:
        f.write("#pragma once\n#include \"antlr4-runtime/minirt.h\"\n%sinline const std::vector<antlr4::LexRule>& %sLexRules() {\n"
                "  static const std::vector<antlr4::LexRule> r = {\n" % (op, name))
        for t, r, h in lexers:
            f.write('    {%d, R"~~(%s)~~", %s},\n' % (t, r, "true" if h else "false"))
        f.write("  };\n  return r;\n}\nclass %sLexer : public antlr4::Lexer {\n public:\n  explicit %sLexer(antlr4::ANTLRInputStream* in) : antlr4::Lexer(in, %sLexRules()) {}\n};\n%s" % (name, name, name, cl))
    with open(os.path.join(out_dir, name + "Parser.h"), "w") as f:
        f.write("#pragma once\n#include \"antlr4-runtime/minirt.h\"\n#undef EOF\n%s" % op)
        f.write("inline const std::vector<antlr4::GRule>& %sRules() {\n  using antlr4::GNode;\n  static const std::vector<antlr4::GRule> r = {\n%s\n  };\n  return r;\n}\n" % (name, "\n".join(rows)))
        f.write("class %sParser : public antlr4::Parser {\n public:\n  explicit %sParser(antlr4::CommonTokenStream* t) : antlr4::Parser(t, %sRules()) {}\n" % (name, name, name))
        f.write("".join("  class %s;\n" % cname(r) for r, _ in prules))
        f.write("\n".join(classes) + "\n" + "\n".join(methods) + "\n protected:\n")
        f.write("  antlr4::ParserRuleContext* make(int rule) override {\n    switch (rule) {\n%s\n    }\n    return nullptr;\n  }\n" % "\n".join(makes))
        f.write("  void label(antlr4::ParserRuleContext* c, int label, antlr4::Token* t, antlr4::ParserRuleContext* r) override {\n    switch (label) {\n%s\n    }\n  }\n};\n%s" % ("\n".join(sets), cl))


NS = {"BinFormat": ["mpact", "sim", "decoder", "bin_format", "generated"],
      "InstructionSet": ["sim", "machine_description", "instruction_set", "generated"],
      "ProtoFormat": ["mpact", "sim", "decoder", "proto_fmt", "generated"]}


def generate_all(repo, out, which=None):
    for g in which or NS:
        generate(os.path.join(repo, "mpact/sim/decoder", g + ".g4"), NS[g], os.path.join(out, "mpact/sim/decoder"))


if __name__ == "__main__":
    import sys
    generate_all(sys.argv[1], sys.argv[2])
