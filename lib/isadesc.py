"""Instruction set descriptions: random ones, their .isa text, their TLA+ value, and the
compiled output of the repository's generator for them."""
import concurrent.futures as cf
import copy
import os
import subprocess

import abslcompat
import miniantlr
import vlib
from vlib import CheckError, NPROC, REPO, VERIF, CXX, absl_libs

# operand values; those of BIG have more than 8, 16 significant bits
VALS = dict(rs1=5, rs2=0x3412, rs3=0x12345, imm=-7, sh=100, acc=0x7001234, va=9, vb=77, p=1, q=0,
            uimm=33)
SMALL = ("rs1", "sh", "uimm")
SRC = ["rs1", "rs2", "rs3", "imm", "sh", "uimm"]
DST = ["rd", "rd2", "fl"]
RES = ["rd", "rd2", "fl", "acc", "alu", "mem", "bus", "vd", "lst"]
ARRRES = ("vd", "lst")
ATTRS = ["a", "b", "c", "d"]


# ---------------------------------------------------------------- TLA+
def q(s):
    return '"%s"' % s


def B(x):
    return "TRUE" if x else "FALSE"


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


def t_expr(e):
    if e is None:
        return "<<>>"
    if e[0] == "n":
        return '<<"n", %d>>' % e[1]
    if e[0] == "id":
        return '<<"id", "%s">>' % e[1]
    return seq([q(e[0])] + [t_expr(x) for x in e[1:]])


def t_named(xs):
    return seq("[n |-> %s, e |-> %s]" % (q(n), t_expr(e)) for n, e in xs)


def t_part(p):
    if p[0] in "to":
        return '<<"%s", %s%s>>' % (p[0], q(p[1]), ', "?"' if len(p) > 2 else "")
    f = p[2]
    return '<<"f", %s, [at |-> %s, sh |-> %d, zero |-> %s, w |-> %d, base |-> %s]%s>>' % (
        q(p[1]), q(f["at"]), f["sh"], B(f["zero"]), f["w"], q(f["base"]), ', "?"' if len(p) > 3 else "")


def t_fmts(fs):
    return seq(seq(map(t_part, f)) for f in fs)


def t_items(xs):
    return seq("[n |-> %s, arr |-> %s, b |-> %s, e |-> %s]" % (q(n), B(a), t_expr(b), t_expr(e))
               for (n, a, form, b, e) in xs)


def t_det(d):
    return "[use |-> %s, acq |-> %s, hold |-> %s]" % tuple(map(t_items, d))


def t_attrs(a):
    r = a.get("res")
    return "[disasm |-> %s, sem |-> %s, res |-> %s, attr |-> %s]" % (
        t_fmts(a.get("disasm", [])), seq(map(str, a.get("sem", []))),
        "<<>>" if r is None else '<<"ref", %s>>' % q(r[1]) if r[0] == "ref"
        else '<<"d", %s>>' % t_det(r[1]), t_named(a.get("attr", [])))


def t_lat(l):
    return {"def": '<<"def">>', "*": '<<"*">>'}.get(l) if isinstance(l, str) else \
        '<<"e", %s>>' % t_expr(l)


def t_op(o):
    if o["k"] == "del":
        return '[k |-> "del", n |-> %s]' % q(o["n"])
    if o["k"] == "ovr":
        return '[k |-> "ovr", n |-> %s, a |-> %s]' % (q(o["n"]), t_attrs(o["a"]))
    sp = seq("[pred |-> %s, srcs |-> %s, dsts |-> %s]" % (
        q(s["pred"]), seq("[n |-> %s, arr |-> %s, rel |-> %s]" % (
            q(n), B(a), B(rl)) for n, a, rl in s["srcs"]),
        seq("[n |-> %s, arr |-> %s, rel |-> %s, lat |-> %s]" % (q(n), B(a), B(rl), t_lat(l))
            for n, a, rl, l in s["dsts"])) for s in o["specs"])
    return '[k |-> "op", n |-> %s, size |-> %d, specs |-> %s, a |-> %s]' % (
        q(o["n"]), o["size"], sp, t_attrs(o["a"]))


def t_item(it):
    k = it[0]
    if k == "const":
        return '[k |-> "const", n |-> %s, e |-> %s]' % (q(it[1]), t_expr(it[2]))
    if k == "lat":
        return '[k |-> "lat", e |-> %s]' % t_expr(it[1])
    if k == "size":
        return '[k |-> "size", v |-> %d]' % it[1]
    if k == "attrs":
        return '[k |-> "attrs", q |-> %s]' % t_named(it[1])
    if k == "res":
        return '[k |-> "res", n |-> %s, d |-> %s]' % (q(it[1]), t_det(it[2]))
    return '[k |-> "defop", disasm |-> %s, sem |-> %s]' % (t_fmts(it[1]), seq(map(str, it[2])))


def t_slot(S):
    return "[params |-> %s, count |-> %d, bases |-> %s, items |-> %s, ops |-> %s]" % (
        seq(map(q, S["params"])), S["count"],
        seq("[n |-> %s, args |-> %s]" % (q(n), seq(map(t_expr, a))) for n, a in S["bases"]),
        seq(map(t_item, S["items"])), seq(map(t_op, S["ops"])))


def tla(P):
    return "[isa |-> %s, dup |-> %s, consts |-> %s, widths |-> %s, slots |-> [%s], list |-> %s, " \
        "vals |-> [%s], res |-> %s, attrs |-> %s]" % (
            B(P["isa"]), "{%s}" % ("1" if P["dup"] else ""), t_named(P["consts"]),
            seq(map(t_expr, P["widths"])),
            ",\n   ".join("%s |-> %s" % (n, t_slot(S)) for n, S in P["slots"].items()),
            seq("[n |-> %s, ix |-> %s]" % (q(n), seq(map(str, ix))) for n, ix in P["list"]),
            ", ".join("%s |-> %d" % x for x in VALS.items()), seq(map(q, RES)),
            seq(map(q, ATTRS)))


def consts_for(ps, **kw):
    def f(evs):
        ks = sorted({op[1] for op, _ in evs if op[0] == "reset"})
        return dict(Isas="[p \\in {%s} |-> CASE " % ", ".join(map(str, ks)) + "\n [] ".join(
            "p = %d -> %s" % (k, tla(ps[k - 1])) for k in ks) + "]",
            Addrs=kw.get("addrs", set()), Picks=set())
    return f


# ---------------------------------------------------------------- .isa text
def x_expr(e, par=False):
    if e[0] == "n":
        return str(e[1])
    if e[0] == "id":
        return e[1]
    if e[0] == "neg":
        return "-%s" % x_expr(e[1], True)
    if e[0] == "abs":
        return "abs(%s)" % x_expr(e[1])
    t = "%s %s %s" % (x_expr(e[1], True), e[0], x_expr(e[2], True))
    return "(%s)" % t if par else t


def x_part(p):
    if p[0] == "t":
        return p[1]
    if p[0] == "o":
        return "%" + p[1] + "".join(p[2:])
    f = p[2]
    n = p[1]
    if f["sh"]:
        n = "(%s%s%d)" % (n, "<<" if f["sh"] > 0 else ">>", abs(f["sh"]))
    s = {"": n, "@": "@", "+": "@+" + n, "-": "@ - " + n}[f["at"]]
    num = ("0" if f["zero"] else "") + (str(f["w"]) if f["w"] else "") + f["base"]
    return "%%(%s%s)%s" % (s, "" if f.get("bare") else ":" + num, "".join(p[3:]))


def x_disasm(fs):
    return ", ".join('"%s"' % "".join(map(x_part, f)) for f in fs)


def x_sem(xs):
    return ", ".join('"Sem(%s)"' % x for x in xs)


def x_items(xs):
    r = []
    for (n, a, form, b, e) in xs:
        t = "[%s]" % n if a else n
        if form:
            t += "[%s%s%s]" % (x_expr(b) if b else "", ".." if form == 2 else "",
                               x_expr(e) if e else "")
        r.append(t)
    return ", ".join(r)


def x_det(d):
    return "{ %s : %s : %s }" % tuple(map(x_items, d))


def x_named(xs):
    return ", ".join(n if e is None else "%s = %s" % (n, x_expr(e)) for n, e in xs)


def x_attrs(a):
    r = []
    for k in a:
        if k == "disasm":
            r.append("disasm: " + x_disasm(a[k]))
        elif k == "sem":
            r.append("semfunc: " + x_sem(a[k]))
        elif k == "res":
            r.append("resources: " + (a[k][1] if a[k][0] == "ref" else x_det(a[k][1])))
        elif k == "attr":
            r.append("attributes: {%s}" % x_named(a[k]))
    return ",\n      ".join(r)


def x_spec(s):
    def src(x):
        n, arr, rel = x
        return "[%s]" % n if arr else "%%reloc(%s)" % n if rel else n

    def dst(x):
        n, arr, rel, l = x
        t = src((n, arr, rel))
        return t + ("" if l == "def" else "(*)" if l == "*" else "(%s)" % x_expr(l))
    return "%s : %s : %s" % (s["pred"], ", ".join(map(src, s["srcs"])),
                             ", ".join(map(dst, s["dsts"])))


def x_op(o):
    if o["k"] == "del":
        return "    %s = delete;\n" % o["n"]
    if o["k"] == "ovr":
        return "    %s = override, %s;\n" % (o["n"], x_attrs(o["a"]))
    sp = ["%s" % x_spec(s) for s in o["specs"]]
    sp = "{%s}" % (sp[0] if len(sp) == 1 and not o.get("paren") else
                   ", ".join("(%s)" % x for x in sp))
    a = x_attrs(o["a"])
    return "    %s%s%s%s;\n" % (o["n"], "[%d]" % o["size"] if o["size"] else "", sp,
                                ",\n      " + a if a else "")


def x_slot(n, S):
    o = ""
    if S["params"]:
        o += "template <%s>\n" % ", ".join("int " + p for p in S["params"])
    o += "slot %s" % n
    if S["count"] != 1 or S.get("showcount"):
        o += "[%d]" % S["count"]
    if S["bases"]:
        o += " : " + ", ".join(b + ("<%s>" % ", ".join(map(x_expr, a)) if a else "")
                               for b, a in S["bases"])
    o += " {\n"
    for it in S["items"]:
        o += "  " + {
            "const": lambda: "int %s = %s" % (it[1], x_expr(it[2])),
            "lat": lambda: "default latency = %s" % x_expr(it[1]),
            "size": lambda: "default size = %d" % it[1],
            "attrs": lambda: "default attributes = { %s }" % x_named(it[1]),
            "res": lambda: "resources %s = %s" % (it[1], x_det(it[2])),
            "defop": lambda: "default opcode = " + ", ".join(
                (["disasm: " + x_disasm(it[1])] if it[1] else []) +
                (["semfunc: " + x_sem(it[2])] if it[2] else []))}[it[0]]() + ";\n"
    if S["ops"] or S.get("showops"):
        o += "  opcodes {\n"
        done = set()
        for op in S["ops"]:
            g = op.get("gen")
            if g is None:
                o += x_op(op)
            elif id(g) not in done:
                done.add(id(g))
                o += "    GENERATE(%s) {\n  %s    };\n" % (g["vars"], x_op(g["tmpl"]))
        o += "  }\n"
    return o + "}\n\n"


def text(P, k):
    """Files of the description: [(name, text)], the first one is the top level."""
    inc = P.get("inc", ())
    o = "// description %d\n" % k
    if P["widths"]:
        o += "disasm widths = {%s};\n" % ", ".join(map(x_expr, P["widths"]))
    o += "".join("int %s = %s;\n" % (n, x_expr(e)) for n, e in P["consts"])
    o += 'includes {\n  #include "isadec.h"\n}\n'
    if inc:
        o += '#include "p%d_inc.isa"\n' % k
    main = "isa P%d%s {\n  namespace vp%d::isa;\n  slots { %s }\n}\n\n" % (
        k, "" if P["isa"] else "x", k,
        " ".join("%s%s;" % (n, "[%s]" % ", ".join(ix_text(ix, P)) if ix else "")
                 for n, ix in P["list"]))
    rest = [(n, x_slot(n, S)) for n, S in P["slots"].items()]
    if P["dup"]:
        rest.append(rest[-1])
    body = "".join(t for n, t in rest if n not in inc)
    o += body + main if P.get("mainlast") else main + body
    files = [("p%d.isa" % k, o)]
    if inc:
        files.append(("p%d_inc.isa" % k, "/* included */\n" +
                      "".join(t for n, t in rest if n in inc)))
    return files


def ix_text(ix, P):
    if P.get("ranges") and len(ix) > 1 and ix == list(range(ix[0], ix[-1] + 1)):
        return ["%d..%d" % (ix[0], ix[-1])]
    return [str(i) for i in ix]


# ---------------------------------------------------------------- random descriptions
def N(v):
    return ["n", v]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.sem = 0
        self.optional = 0.05
        self.rel = 0.1
        self.twins = 0
        self.names = iter("op%s%s%s" % (a, "_" if i % 3 == 1 else "", b)
                          for a in "abcdefghij" for i, b in enumerate("abc0123def45ghij6"))

    def nsem(self):
        self.sem += 1
        return self.sem

    def expr(self, ids, d=0):
        """An expression with a small value that isn't negative."""
        r = self.r
        x = r.random()
        if d > 1 or x < 0.35:
            return N(r.choice([0, 1, 1, 2, 3, 4]))
        if x < 0.65 and ids:
            return ["id", r.choice(ids)]
        if x < 0.75:
            return ["+", self.expr(ids, d + 1), self.expr(ids, d + 1)]
        if x < 0.82:
            return ["*", self.expr(ids, d + 1), N(r.choice([0, 1, 2]))]
        if x < 0.88:
            return ["/", self.expr(ids, d + 1), N(r.choice([1, 2, 3]))]
        if x < 0.95:
            return ["abs", ["-", self.expr(ids, d + 1), self.expr(ids, d + 1)]]
        return ["neg", ["neg", self.expr(ids, d + 1)]]

    def spec(self, ids, arrays=0.3):
        r = self.r
        pred = r.choice(["", "", "", "p", "q"])
        srcs = [[n, False, r.random() < self.rel] for n in r.sample(SRC + ["acc"], r.choice([0, 1, 1, 2, 2, 3]))]
        if r.random() < arrays:
            srcs.append([r.choice(["va", "vb"]), True, False])
        dsts = []
        for n in r.sample(DST + ["acc"], r.choice([0, 1, 1, 1, 2, 3])):
            x = r.random()
            dids = [d[0] for d in dsts if d[3] != "*"]
            dsts.append([n, False, r.random() < self.rel,
                         "def" if x < 0.35 else "*" if x < 0.45 else self.expr(ids + dids)])
        if r.random() < arrays:
            x = r.random()
            dsts.append(["vd", True, False, "def" if x < 0.3 else "*" if x < 0.5 else self.expr(ids)])
        return dict(pred=pred, srcs=srcs, dsts=dsts)

    def fmts(self, specs, mnem):
        """Disassembly formats for an opcode with these operands (none: the default opcode)."""
        r = self.r
        ops, srcs = [], []
        for s in specs:
            for n, k, a in ([(s["pred"], "p", False)] if s["pred"] else []) + \
                    [(x[0], "s", x[1]) for x in s["srcs"]] + [(x[0], "d", x[1]) for x in s["dsts"]]:
                if n not in ops:
                    ops.append(n)
                    if k == "s":
                        srcs.append(n)
        out = []

        def opt():
            return ("?",) if r.random() < self.optional else ()
        parts = [("t", mnem)]
        if r.random() < 0.7:
            out.append(parts)
            parts = []
        else:
            parts.append(("t", " "))
        k = r.choice([0, 1, 2, 2, 3, 4])
        for i in range(k):
            x = r.random()
            if parts and parts[-1][0] != "t":
                parts.append(("t", r.choice([", ", ",", "(", "[", " - ", "):", "#"])))
            if x < 0.55 and ops:
                parts.append(("o", r.choice(ops)) + opt())
            elif x < 0.62:
                parts.append(("f", "", self.num("@", None)))
            elif srcs:
                n = r.choice(srcs)
                parts.append(("f", n, self.num(r.choice(["", "", "+", "-"]) if n in SMALL else "", n))
                             + opt())
            if r.random() < 0.25 and parts and parts[-1][0] != "t":
                parts.append(("t", r.choice([")", "]", " x", "!"])))
                if r.random() < 0.4:
                    out.append(parts)
                    parts = []
        if parts:
            out.append(parts)
        return [[list(p) for p in f] for f in out]

    def num(self, at, n):
        r = self.r
        f = dict(at=at, sh=0, zero=False, w=0, base="d")
        if n and r.random() < 0.4 and at != "@":
            f["sh"] = r.choice([1, 2, 3, -1, -2, -4])
        if n == "imm":
            f["sh"] = min(f["sh"], 0)
            return f
        f["base"] = r.choice("dxxxXo")
        if r.random() < 0.6:
            f["w"] = r.choice([1, 2, 3, 4, 5, 8, 8, 9, 12])
            f["zero"] = r.random() < 0.6
        if f["base"] == "d" and n and n not in SMALL:
            f["w"], f["zero"] = 0, False
        if at == "" and f["base"] == "d" and not f["w"] and r.random() < 0.5:
            f["bare"] = True
        return f

    def res(self, ids, dests, star):
        r = self.r

        def item():
            n = r.choice(RES + dests * 3)
            form = r.choice([0, 0, 1, 2, 2])
            b = e = None
            ref = [n] if n in dests and n not in star else []
            if form and r.random() < 0.5:
                b = self.expr(ids + ref) if r.random() < 0.5 else N(0)
            if form == 2 and r.random() < 0.7:
                e = self.expr(ids + ref)
                if r.random() < 0.5:
                    e = ["+", e, N(r.choice([1, 5, 11]))]
            return [n, n in ARRRES, form, b, e]

        def lst(k):
            out = []
            for _ in range(k):
                it = item()
                if it[0] not in [o[0] for o in out]:
                    out.append(it)
            return out
        return [lst(r.choice([0, 1, 2, 2])), lst(r.choice([0, 0, 1, 2, 2])), lst(r.choice([0, 0, 1]))]

    def attr(self, ids, k=None):
        r = self.r
        return [[n, None if r.random() < 0.35 else self.expr(ids)]
                for n in r.sample(ATTRS, k or r.choice([1, 1, 2, 3]))]

    def attrs(self, ids, specs, mnem, named, full=True):
        r = self.r
        dests = [d[0] for s in specs for d in s["dsts"]]
        star = [d[0] for s in specs for d in s["dsts"] if d[3] == "*"]
        a = {}
        keys = ["disasm", "sem", "res", "attr"]
        r.shuffle(keys)
        for k in keys:
            if k == "disasm" and r.random() < (0.9 if full else 0.5):
                a[k] = self.fmts(specs, mnem)
            if k == "sem" and r.random() < (0.9 if full else 0.5):
                a[k] = [self.nsem() for _ in specs]
            if k == "res" and r.random() < 0.6:
                a[k] = ["ref", r.choice(named)] if named and r.random() < 0.4 else \
                    ["d", self.res(ids, dests, star)]
            if k == "attr" and r.random() < 0.4:
                a[k] = self.attr(ids)
        if not a:
            a["sem"] = [self.nsem() for _ in specs]
        return a

    def op(self, ids, named, family=None):
        r = self.r
        n = next(self.names)
        if family is not None and r.random() < 0.75:
            specs = copy.deepcopy(family)
            if r.random() < 0.3 and specs[0]["srcs"]:
                r.shuffle(specs[0]["srcs"])
                specs[0]["srcs"].sort(key=lambda x: x[1])
        else:
            specs = [self.spec(ids) for _ in range(r.choice([1, 1, 1, 1, 2, 3]))]
        return dict(k="op", n=n, size=r.choice([0, 0, 0, 2, 4, 8]), specs=specs,
                    a=self.attrs(ids, specs, r.choice([n, "same", "ld"]), named),
                    paren=r.random() < 0.2)

    def generated(self, ids):
        """A GENERATE group: several opcodes from one text."""
        r = self.r
        n = next(self.names)
        src = r.sample(SRC, 2)
        vs = []
        for k in range(r.choice([1, 1, 2])):
            nv = r.choice([1, 2])
            vs.append((["X%d%d" % (k, i) for i in range(nv)],
                       [["%s%d" % (r.choice("uvw"), 10 * k + j), r.choice(SRC[3:])][:nv]
                        for j in range(r.choice([2, 3]))]))
        suffix = "".join("$(%s)" % v[0][0] for v in vs)
        vsrc = [v[0][1] for v in vs if len(v[0]) > 1][:1]
        lat = self.expr(ids)
        sems = self.nsem()
        tmpl = dict(k="op", n=n + suffix, size=r.choice([0, 4]),
                    specs=[dict(pred=r.choice(["", "p"]),
                                srcs=[[x, False, False] for x in (["$(%s)" % vsrc[0]] if vsrc else []) +
                                      [x for x in src[:1] if x not in SRC[3:]]],
                                dsts=[["rd", False, False, lat]])],
                    a={"sem": [sems],
                       "disasm": [[["t", n + suffix]], [["o", "rd"]] +
                                  ([["t", ", "], ["o", "$(%s)" % vsrc[0]]] if vsrc else [])]})
        if r.random() < 0.5:
            tmpl["a"]["attr"] = self.attr(ids)
        if r.random() < 0.5:
            tmpl["a"]["res"] = ["d", self.res(ids, ["rd"], [])]
        txt = []
        for names, rows in vs:
            if len(names) == 1:
                txt.append("%s = [%s]" % (names[0], ", ".join(
                    x[0] if r.random() < 0.5 else '"%s"' % x[0] for x in rows)))
            else:
                txt.append("[%s] = [%s]" % (", ".join(names), ", ".join(
                    "{%s}" % ", ".join(x) for x in rows)))
        g = dict(vars=", ".join(txt), tmpl=tmpl)

        def sub(x, env):
            if isinstance(x, str):
                for a, b in env.items():
                    x = x.replace("$(%s)" % a, b)
                return x
            if isinstance(x, (list, tuple)):
                return [sub(y, env) for y in x]
            if isinstance(x, dict):
                return {k: sub(y, env) for k, y in x.items()}
            return x
        envs = [{}]
        for names, rows in vs:
            envs = [dict(e, **dict(zip(names, row))) for e in envs for row in rows]
        out = []
        for e in envs:
            o = sub(tmpl, e)
            o["gen"] = g
            if any(x["n"] == o["n"] for x in out):
                continue
            out.append(o)
        return out

    def slot(self, P, bases, params, base_ops, listed):
        r = self.r
        glob = [n for n, _ in P["consts"]]
        S = dict(params=params, count=r.choice([1, 1, 2, 3]) if listed else 1, items=[], ops=[],
                 bases=[(b, [self.expr(params + glob) for _ in P["slots"][b]["params"]])
                        for b in bases])
        S["showcount"] = r.random() < 0.3 and not params
        ids = list(params) + glob
        its = []
        for i in range(r.choice([0, 1, 2])):
            n = "k%d" % i if r.random() < 0.8 or not glob else glob[0]
            if n in ids and n not in glob or n in [x[1] for x in its if x[0] == "const"]:
                continue
            its.append(["const", n, self.expr([x for x in ids if x != n])])
            if n not in ids:
                ids.append(n)
        if r.random() < 0.6:
            its.append(["lat", self.expr(ids)])
        if r.random() < 0.6:
            its.append(["size", r.choice([1, 2, 4])])
        if r.random() < 0.5:
            its.append(["attrs", self.attr(ids)])
        named = []
        for i in range(r.choice([0, 1, 1])):
            named.append("rz%d" % i)
            its.append(["res", named[-1], self.res(ids, [], [])])
        if listed or r.random() < 0.5:
            its.insert(r.choice([0, len(its)]), ["defop", self.fmts([], "ill") if r.random() < 0.8 else [],
                                                  [self.nsem()]])
        S["items"] = its
        for n, specs in base_ops:
            x = r.random()
            if x < 0.15:
                S["ops"].append(dict(k="del", n=n))
            elif x < 0.45:
                S["ops"].append(dict(k="ovr", n=n, a=self.attrs(ids, specs, n + "o", named, False)))
        fam = None
        for i in range(r.choice([1, 2, 3, 4, 5]) if not S["bases"] else r.choice([0, 1, 2, 3])):
            o = self.op(ids, named, fam)
            S["ops"].append(o)
            if fam is None:
                fam = o["specs"]
            if self.twins and r.random() < self.twins:  # another encoding of the same text
                o = copy.deepcopy(o)
                o["n"] = next(self.names)
                S["ops"].append(o)
        if r.random() < 0.25:
            S["ops"] += self.generated(ids)
        r.shuffle(S["ops"])
        return S

    def isa(self):
        r = self.r
        P = dict(isa=True, dup=False, consts=[], widths=[N(r.choice([0, 6, 8, 12, -10, 20]))
                 for _ in range(r.choice([0, 1, 2, 3]))], slots={}, list=[], mainlast=r.random() < 0.5,
                 ranges=r.random() < 0.5)
        P["widths"] = [["neg", N(-w[1])] if w[1] < 0 else w for w in P["widths"]]
        for i in range(r.choice([0, 1, 2])):
            P["consts"].append(("g%d" % i, self.expr(["g0"][:i])))
        visible = {}             # slot -> [(op, specs)]
        anc = {}
        plan = [("t%d" % i, True, False) for i in range(r.choice([0, 1, 1, 2]))] + \
               [("b%d" % i, False, False) for i in range(r.choice([0, 1, 1]))] + \
               [("m%d" % i, False, True) for i in range(r.choice([1, 2, 2, 3]))]
        for n, templ, listed in plan:
            cand = list(P["slots"])
            r.shuffle(cand)
            bases, used = [], set()
            for b in cand[:r.choice([0, 1, 1, 2])]:
                if not ({b} | anc[b]) & used:
                    bases.append(b)
                    used |= {b} | anc[b]
            bops = [x for b in bases for x in visible[b]]
            S = self.slot(P, bases, (["x", "y"][:r.choice([1, 1, 2])] if templ else []), bops, listed)
            P["slots"][n] = S
            anc[n] = used
            gone = {o["n"] for o in S["ops"] if o["k"] == "del"}
            visible[n] = [x for x in bops if x[0] not in gone] + \
                [(o["n"], o["specs"]) for o in S["ops"] if o["k"] == "op"]
            if listed:
                ix = sorted(r.sample(range(S["count"]), r.randint(1, S["count"]))) \
                    if S["count"] > 1 or r.random() < 0.2 else []
                P["list"].append((n, ix))
        P["visible"] = visible
        r.shuffle(P["list"])
        if r.random() < 0.35:
            P["inc"] = tuple(r.sample(list(P["slots"]), r.randint(1, len(P["slots"]))))
        order = list(P["slots"])
        r.shuffle(order)
        P["slots"] = {n: P["slots"][n] for n in order}
        return P


# ---------------------------------------------------------------- malformed descriptions
def breakages(g, P):
    """Each makes the description malformed, or returns False when it does not apply."""
    r = g.r
    listed = [P["slots"][n] for n, _ in P["list"]]
    S = r.choice(listed)
    own = [o for o in S["ops"] if o["k"] == "op" and "gen" not in o]
    o = r.choice(own) if own else None

    def undefined_slot():
        P["list"].append(("nope", []))

    def undefined_base():
        S["bases"].append(("nope", []))

    def extra_arg():
        if not S["bases"]:
            return False
        b, a = S["bases"][0]
        S["bases"][0] = (b, a + [N(1)])

    def missing_arg():
        b = [i for i, x in enumerate(S["bases"]) if x[1]]
        if not b:
            return False
        S["bases"][b[0]] = (S["bases"][b[0]][0], S["bases"][b[0]][1][1:])

    def dup_const():
        S["items"] += [["const", "kk", N(1)], ["const", "kk", N(2)]]

    def const_param():
        t = [x for n in P["slots"] for x in [P["slots"][n]] if x["params"] and any(
            b[0] == n for s in listed for b in s["bases"])]
        if not t:
            return False
        t[0]["items"].append(["const", t[0]["params"][0], N(1)])

    def late_const():
        S["items"] = [["lat", ["id", "kz"]], ["const", "kz", N(1)]] + S["items"]

    def unknown_latency():
        if not o or not o["specs"][0]["dsts"]:
            return False
        o["specs"][0]["dsts"][-1][3] = ["+", N(1), ["id", "zzz"]]

    def later_dest():
        if not o:
            return False
        o["specs"] = [dict(pred="", srcs=[], dsts=[["rd", False, False, ["id", "fl"]],
                                                   ["fl", False, False, N(1)]])]
        o["a"] = {"sem": [1]}

    def unknown_attr():
        if not o:
            return False
        o["a"]["attr"] = [["a", ["id", "zzz"]]]

    def unknown_arg():
        b = [i for i, x in enumerate(S["bases"]) if x[1]]
        if not b:
            return False
        S["bases"][b[0]][1][0] = ["id", "zzz"]

    def del_missing():
        S["ops"].append(dict(k="del", n="nope"))

    def ovr_missing():
        S["ops"].append(dict(k="ovr", n="nope", a={"sem": [1]}))

    def ovr_own():
        if not o:
            return False
        S["ops"].append(dict(k="ovr", n=o["n"], a={"sem": [1] * len(o["specs"])}))

    def dup_op():
        if not o:
            return False
        S["ops"].append(dict(copy.deepcopy(o)))

    def dup_op_other():
        if not o or len(listed) < 2:
            return False
        T = r.choice([x for x in listed if x is not S])
        T["ops"].append(dict(copy.deepcopy(o)))

    def same_base_twice():
        if not S["bases"]:
            return False
        S["bases"].append(copy.deepcopy(S["bases"][0]))

    def diamond():
        if not S["bases"]:
            return False
        b, a = S["bases"][0]
        P["slots"]["dd"] = dict(params=[], count=1, items=[], bases=[(b, [N(1) for _ in a])], ops=[])
        S["bases"].append(("dd", []))

    def two_bases_one_op():
        # two unrelated slots provide the same opcode through different bases
        P["slots"]["d1"] = dict(params=[], count=1, items=[], bases=[], ops=[
            dict(k="op", n="opzz", size=0, specs=[g.spec([])], a={"sem": [1]})])
        for x in ("d2", "d3"):
            P["slots"][x] = dict(params=[], count=1, items=[], bases=[("d1", [])], ops=[])
        P["slots"]["d4"] = dict(params=[], count=1, bases=[("d2", []), ("d3", [])], ops=[],
                                items=[["defop", [], [1]]])
        P["list"].append(("d4", []))

    def dup_attr():
        if not o:
            return False
        o["a"]["attr"] = [["a", N(1)], ["b", None], ["a", N(2)]]

    def dup_def_attr():
        S["items"].append(["attrs", [["a", N(1)], ["a", N(2)]]])

    def few_sems():
        if not o or len(o["specs"]) < 2:
            return False
        o["a"]["sem"] = [1]

    def no_defop():
        S["items"] = [i for i in S["items"] if i[0] != "defop"]

    def two_defops():
        S["items"].append(["defop", [], [9]])

    def defop_sems():
        S["items"] = [i for i in S["items"] if i[0] != "defop"] + [["defop", [], [9, 8]]]

    def defop_nosem():
        S["items"] = [i for i in S["items"] if i[0] != "defop"] + [["defop", [[["t", "x"]]], []]]

    def defop_operand():
        S["items"] = [i for i in S["items"] if i[0] != "defop"] + \
            [["defop", [[["t", "x "], ["o", "rd"]]], [9]]]

    def star_ref():
        if not o:
            return False
        o["specs"] = [dict(pred="", srcs=[], dsts=[["rd", False, False, "*"]])]
        o["a"] = {"sem": [1], "res": ["d", [[], [["alu", False, 2, None, ["id", "rd"]]], []]]}

    def two_refs():
        if not o:
            return False
        o["specs"] = [dict(pred="", srcs=[], dsts=[["rd", False, False, N(1)], ["fl", False, False, N(2)]])]
        o["a"] = {"sem": [1], "res": ["d", [[], [r.choice([
            ["alu", False, 2, ["id", "rd"], ["id", "fl"]], ["rd", False, 2, None, ["id", "fl"]],
            ["rd", False, 2, ["id", "fl"], N(3)]])], []]]}

    def unknown_res():
        if not o:
            return False
        o["a"]["res"] = ["ref", "nope"]

    def dup_res():
        d = [[], [["alu", False, 0, None, None]], []]
        S["items"] += [["res", "rr", d], ["res", "rr", d]]

    def disasm_operand():
        if not o:
            return False
        o["a"]["disasm"] = [[["t", "x "], ["o", "zzz"]]]

    def disasm_expr_operand():
        if not o:
            return False
        o["a"]["disasm"] = [[["t", "x "], ["f", "zzz", dict(
            at=r.choice(["", "+"]), sh=r.choice([0, 2, -1]), zero=False, w=0, base="x")]]]

    def negative():
        if not o:
            return False
        o["specs"] = [dict(pred="", srcs=[], dsts=[["rd", False, False, ["-", N(1), N(2)]]])]
        o["a"] = {"sem": [1]}

    def negative_template():
        P["slots"]["tn"] = dict(params=["z"], count=1, items=[], bases=[], ops=[
            dict(k="op", n="opzz", size=0, specs=[dict(pred="", srcs=[], dsts=[
                ["rd", False, False, ["-", ["id", "z"], N(3)]]])], a={"sem": [1]})])
        S["bases"].append(("tn", [N(r.choice([1, 2, 3, 4]))]))

    def div_zero():
        if not o:
            return False
        o["specs"] = [dict(pred="", srcs=[], dsts=[["rd", False, False, ["/", N(1), N(0)]]])]
        o["a"] = {"sem": [1]}

    def cycle():
        P["slots"]["c1"] = dict(params=[], count=1, items=[], bases=[("c2", [])], ops=[])
        P["slots"]["c2"] = dict(params=[], count=1, items=[], ops=[],
                                bases=[(r.choice(["c1", "c2"]), [])])
        S["bases"].append(("c1", []))

    def range_error():
        n, ix = P["list"][0]
        P["list"][0] = (n, ix + [P["slots"][n]["count"]])

    def wrong_isa():
        P["isa"] = False

    def dup_slot():
        P["dup"] = True

    def dup_global():
        P["consts"] += [("gg", N(1)), ("gg", N(2))]

    def bad_global():
        P["consts"] += [("gg", ["id", "hh"])]
    return [v for k, v in sorted(locals().items()) if callable(v) and k not in ("g",)]


def broken(rng, which):
    while True:
        g = Gen(rng)
        P = g.isa()
        fs = breakages(g, P)
        f = fs[which % len(fs)]
        if f() is not False:
            P["broken"] = f.__name__
            return P


# ---------------------------------------------------------------- building
SRCS = ("bundle decoder_error_listener format_name instruction instruction_set "
        "instruction_set_visitor opcode resource slot template_expression").split()


def build_generator(work, san=True):
    """The repository's generator, compiled against the stand-in for the ANTLR runtime."""
    gen = os.path.join(work, "gen")
    os.makedirs(gen, exist_ok=True)
    miniantlr.generate_all(REPO, gen, ["InstructionSet"])
    abslcompat.generate(gen)
    abslcompat.overlay(REPO, gen, ["mpact/sim/decoder"])
    flags = ["-std=c++17", "-O0", "-g1", "-include", "cstdint", "-Wno-everything", "-I" + gen,
             "-I" + VERIF + "/shim/include", "-I" + VERIF + "/shim/antlr", "-I" + REPO]
    if san:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function"]
    d = os.path.join(gen, "mpact/sim/decoder")
    srcs = [os.path.join(d, s + ".cc") for s in SRCS if os.path.exists(os.path.join(d, s + ".cc"))]
    srcs.append(VERIF + "/harness/isagen.cc")

    def one(s):
        o = os.path.join(work, "g_" + os.path.basename(s) + ".o")
        r = subprocess.run([CXX] + flags + ["-c", s, "-o", o], capture_output=True, text=True)
        return s, o, r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, srcs))
    for s, o, r in res:
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-3000:]))
    exe = os.path.join(work, "isagen")
    objs = [o for _, o, _ in res]
    link = [CXX] + (["-fsanitize=address,undefined"] if san else []) + objs + ["-o", exe] + \
        absl_libs() + ["-lpthread", "-lpcre2-8"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        more = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc") and
                not f.endswith("_main.cc") and os.path.join(d, f) not in srcs]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            good = [o for _, o, x in ex.map(one, more) if x.returncode == 0]
        arch = os.path.join(work, "rest.a")
        subprocess.run(["ar", "rcs", arch] + good)
        i = link.index("-o")
        r = subprocess.run(link[:i] + [arch] + link[i:], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking the generator failed:\n" + r.stderr[-3000:])
    return exe, gen


def cap(n):
    return n[0].upper() + n[1:]


def driver(P, k):
    """C++ that makes the generated decoder of description k reachable by name."""
    ns = "vp%d::isa" % k
    slots = [n for n, _ in P["list"]]
    o = ['#include "isadec.h"', '#include "p%d_enums.h"' % k, '#include "p%d_decoder.h"' % k,
         '#include "p%d_enums.cc"' % k, '#include "p%d_decoder.cc"' % k]
    for n in slots:
        o.append("namespace %s::%s { using AE%s = AttributeEnum; }" % (ns, n, n))
    o.append("namespace %s {" % ns)
    o.append("#define VERIF_ISA P%d" % k)
    o.append('#include "isadec_impl.h"')
    o.append("#undef VERIF_ISA")
    o.append("class F : public P%dInstructionSetFactory {\n public:" % k)
    for n in slots:
        o.append("  std::unique_ptr<%sSlot> Create%sSlot(ArchState *s) { return std::make_unique<"
                 "%sSlot>(s); }" % (cap(n), cap(n), cap(n)))
    o.append("};")
    o.append("static void Reg() {\n  auto& p = vi::Progs()[%d];" % (k + 1))
    for n in slots:
        o.append('  p.slots["%s"] = [](const std::string& op, int entry, uint64_t addr, '
                 "vi::Attrs* at) {\n    static %sSlot s(nullptr);\n    Enc e; e.Set(SlotEnum::k%s, "
                 "entry, op);\n    *at = vi::AttrIndex<%s::AE%s>();\n"
                 "    return s.Decode(addr, &e, SlotEnum::k%s, entry);\n  };" % (
                     n, cap(n), cap(n), n, n, cap(n)))
    o.append("  p.word = [](const std::vector<std::string>& ops, uint64_t addr, "
             "std::vector<vi::Attrs>* at) {\n    F f; P%dInstructionSet isa(nullptr, &f); Enc e;" % k)
    i = 0
    for n, ix in P["list"]:
        for x in ix or [0]:
            o.append("    e.Set(SlotEnum::k%s, %d, ops[%d]); at->push_back(vi::AttrIndex<%s::AE%s>());"
                     % (cap(n), x, i, n, n))
            i += 1
    o.append("    return isa.Decode(addr, &e);\n  };\n}")
    o.append("static bool reg = (Reg(), true);\n}")
    return "\n".join(o) + "\n"


def asm_driver(P, k):
    """C++ that makes the generated assembler of description k reachable by name."""
    slots = [n for n, _ in P["list"]]
    o = ['#include "isaasm.h"', '#include "p%d_enums.h"' % k, '#include "p%d_encoder.h"' % k,
         '#include "p%d_enums.cc"' % k, '#include "p%d_encoder.cc"' % k]
    o.append("namespace vp%d::isa {" % k)
    o.append("#define VERIF_ISA P%d" % k)
    o.append('#include "isaasm_impl.h"')
    o.append("#undef VERIF_ISA")
    o.append("static void Reg() {\n  auto& p = va::Progs()[%d];" % (k + 1))
    names = sorted({op["n"] for S in P["slots"].values() for op in S["ops"]})
    for n in names:
        o.append('  p.names["%s"] = "%s";' % (n.replace("_", "").lower(), n))
    for n in slots:
        o.append('  p.slots["%s"] = Matcher<%sSlotMatcher>(%d, SlotEnum::k%s);' % (
            n, cap(n), k + 1, cap(n)))
    o.append("}\nstatic bool reg = (Reg(), true);\n}")
    return "\n".join(o) + "\n"


def build_decoders(c, work, exe, gen, progs, driver=driver, mains=None):
    """Generates and compiles the decoders. Returns the binary and, per description, how
    the generator ended."""
    out = os.path.join(work, "dec")
    os.makedirs(out, exist_ok=True)

    def gen1(k):
        for n, t in text(progs[k], k):
            open(os.path.join(out, n), "w").write(t)
        try:
            r = subprocess.run([exe, "%s/p%d.isa" % (out, k), out, "p%d" % k, "P%d" % k],
                               capture_output=True, text=True, env=vlib.HARNESS_ENV, timeout=100)
        except subprocess.TimeoutExpired:
            return "crash", "timeout"
        if r.returncode == 0 and r.stdout.strip().split("\n")[-1] in ("ok", "rejected"):
            return r.stdout.strip().split("\n")[-1], r.stderr[-2000:]
        return "crash", r.stderr[:3000]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        status = list(ex.map(gen1, range(len(progs))))
    for k, (st, err) in enumerate(status):
        if st == "crash":
            c.fail("generator", "the generator crashed on description %d" % k,
                   dict(isa=text(progs[k], k), stderr=err, broken=progs[k].get("broken")))
    flags = ["-std=c++17", "-O0", "-g1", "-include", "cstdint", "-Wno-everything", "-I" + out,
             "-I" + gen, "-I" + VERIF + "/shim/include", "-I" + VERIF + "/shim/antlr", "-I" + VERIF + "/harness",
             "-I" + REPO]
    r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + gen,
                        "mpact/sim/proto/component_data.proto"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("protoc failed: " + r.stderr[-2000:])
    ok = [k for k, (st, _) in enumerate(status) if st == "ok" and not progs[k].get("broken")]
    for k in ok:
        open(os.path.join(out, "d%d.cc" % k), "w").write(driver(progs[k], k))
    groups = [g for g in (ok[i::2 * NPROC] for i in range(2 * NPROC)) if g]

    def comp(name, ks):
        src = os.path.join(out, name + ".cc")
        open(src, "w").write("".join('#include "d%d.cc"\n' % k for k in ks))
        o = src + ".o"
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", o], capture_output=True, text=True)
        return o, r

    def grp(i):
        o, r = comp("g%d" % i, groups[i])
        if r.returncode == 0:
            return [o], []
        objs, bad = [], []
        for k in groups[i]:
            o, r = comp("s%d" % k, [k])
            if r.returncode == 0:
                objs.append(o)
            else:
                bad.append((k, r.stderr[:3000]))
        return objs, bad
    objs, bad = [], []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fm = ex.submit(comp_main, out, flags, mains)
        for a, b in ex.map(grp, range(len(groups))):
            objs += a
            bad += b
        objs += fm.result()
    for k, err in sorted(bad):
        status[k] = ("uncompilable", err)
    binary = os.path.join(work, "isadec")
    r = subprocess.run([CXX] + objs + ["-o", binary] + absl_libs() + ["-lpthread", "-lprotobuf", "-lpcre2-8"],
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking the decoders failed:\n" + r.stderr[-3000:])
    with open(binary + ".status", "w") as f:
        f.write("\n".join(st for st, _ in status) + "\n")
    return binary, status


def comp_main(out, flags, mains):
    objs = []
    for s in mains or (VERIF + "/harness/isadec.cc", REPO + "/mpact/sim/generic/instruction.cc"):
        o = os.path.join(out, os.path.basename(s) + ".o")
        r = subprocess.run([CXX] + flags + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-3000:]))
        objs.append(o)
    return objs
