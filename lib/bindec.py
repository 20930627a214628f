"""Instruction-word descriptions: random ones, their .bin_fmt text, their TLA+ value, and
the compiled output of the repository's generator for them."""
import concurrent.futures as cf
import os
import subprocess
import sys

import abslcompat
import miniantlr
import vlib
from vlib import CheckError, NPROC, REPO, VERIF, CXX, absl_libs

M64 = (1 << 64) - 1


def limbs(v):
    return [(v >> (16 * k)) & 0xffff for k in range(4)]


# ---------------------------------------------------------------- semantics
# (only used to label descriptions as ambiguous and to choose interesting words;
#  what a word decodes to is decided by the specification)
def positions(F, n):
    hi = F["w"] - 1
    for (fn, w, sg, rep) in F["fields"]:
        if fn == n:
            return list(range(hi, hi - w, -1))
        hi -= w * rep
    for (on, w, sg, parts) in F["ovls"]:
        if on == n:
            out = []
            for q in parts:
                if q[0] == "f":
                    out += positions(F, q[1])
                elif q[0] == "fr":
                    lo = positions(F, q[1])[-1]
                    out += list(range(lo + q[2], lo + q[3] - 1, -1))
                elif q[0] == "r":
                    out += list(range(q[1], q[2] - 1, -1))
                else:
                    out += [-1 - b for b in q[1]]
            return out
    return None


def raw(F, n, w):
    v = 0
    for p in positions(F, n):
        v = 2 * v + (((w >> p) & 1) if p >= 0 else -1 - p)
    return v


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def sat(F, cons, w):
    return all(CMP[op](raw(F, l, w), raw(F, r, w) if isinstance(r, str) else r)
               for (l, op, r) in cons)


def insert(F, n, v, w):
    pos = positions(F, n)
    for k, p in enumerate(pos):
        if p >= 0:
            b = (v >> (len(pos) - 1 - k)) & 1
            w = (w & ~(1 << p)) | (b << p)
    return w


def encoding(P, I):
    w = 0
    for (l, op, r) in I["cons"]:
        if op == "==" and not isinstance(r, str):
            w = insert(P["fmts"][I["fmt"]], l, r, w)
    return w


def matches(P, w):
    return [i for i, I in enumerate(P["insts"]) if sat(P["fmts"][I["fmt"]], I["cons"], w)]


def ambiguous(P):
    if P["w"] > 12:
        return P.get("amb", True)
    return any(len(matches(P, w)) > 1 for w in range(1 << P["w"]))


# ---------------------------------------------------------------- TLA+ and .bin_fmt text
def q(s):
    return '"%s"' % s


def tla_con(c):
    l, op, r = c
    return "[l |-> %s, op |-> %s, r |-> %s, v |-> <<%s>>]" % (
        q(l), q(op), q(r if isinstance(r, str) else ""),
        ", ".join(map(str, limbs(0 if isinstance(r, str) else r))))


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


def tla_part(p):
    if p[0] == "f":
        return '<<"f", %s>>' % q(p[1])
    if p[0] == "fr":
        return '<<"fr", %s, %d, %d>>' % (q(p[1]), p[2], p[3])
    if p[0] == "r":
        return '<<"r", %d, %d>>' % (p[1], p[2])
    return '<<"c", %s>>' % seq(map(str, p[1]))


def B(x):
    return "TRUE" if x else "FALSE"


def tla_prog(P):
    fm = []
    for n, F in P["fmts"].items():
        fm.append("%s |-> [w |-> %d, base |-> %s, fields |-> %s, ovls |-> %s]" % (
            n, F["w"], q(F["base"]),
            seq("[n |-> %s, w |-> %d, sg |-> %s, rep |-> %d]" % (q(a), w, B(sg), rep)
                for (a, w, sg, rep) in F["fields"]),
            seq("[n |-> %s, w |-> %d, sg |-> %s, parts |-> %s]" % (
                q(a), w, B(sg), seq(tla_part(x) for x in parts))
                for (a, w, sg, parts) in F["ovls"])))
    ins = []
    for I in P["insts"]:
        ins.append("[n |-> %s, fmt |-> %s, cons |-> %s, specs |-> %s]" % (
            q(I["n"]), q(I["fmt"]), seq(map(tla_con, I["cons"])),
            seq("[n |-> %s, cons |-> %s]" % (q(a), seq(map(tla_con, cs)))
                for (a, cs) in I["specs"])))
    return "[w |-> %d, root |-> %s, amb |-> %s, fmts |-> [%s], insts |-> %s]" % (
        P["w"], q(P["root"]), B(P["amb"]), ", ".join(fm), seq(ins))


def tla_progs(Ps):
    return "<<" + ",\n".join(tla_prog(P) for P in Ps) + ">>"


def consts_for(ps):
    """Constants of InstWord for the descriptions some executions are about."""
    def f(evs):
        ks = sorted({op[1] for op, _ in evs if op[0] == "reset"})
        return dict(Progs="[p \\in {%s} |-> CASE " % ", ".join(map(str, ks)) + "\n [] ".join(
            "p = %d -> %s" % (k, tla_prog(ps[k - 1])) for k in ks) + "]",
            ValSet=set(), WordSet=set())
    return f


def text(P, k):
    o = ["decoder D {", "  namespace vp%d::encoding;" % k, '  opcode_enum = "OpcodeEnum";',
         '  includes { #include "p%d_enums.h" }' % k, "  G;", "};", ""]
    for n, F in P["fmts"].items():
        o.append("format %s[%d]%s {" % (n, F["w"], " : " + F["base"] if F["base"] else ""))
        o.append("  fields:")
        for (a, w, sg, rep) in F["fields"]:
            if a in F.get("sub", {}):
                o.append("    format %s %s%s;" % (F["sub"][a], a, "[%d]" % rep if rep > 1 else ""))
            else:
                o.append("    %s %s[%d];" % ("signed" if sg else "unsigned", a, w))
        if F["ovls"]:
            o.append("  overlays:")
        for (a, w, sg, parts) in F["ovls"]:
            ps = []
            for x in parts:
                if x[0] == "f":
                    ps.append(x[1])
                elif x[0] == "fr":
                    ps.append("%s[%s]" % (x[1], "%d" % x[2] if x[2] == x[3] and x[2] % 2
                                          else "%d..%d" % (x[2], x[3])))
                elif x[0] == "r":
                    ps.append("[%s]" % ("%d" % x[1] if x[1] == x[2] and x[1] % 2
                                        else "%d..%d" % (x[1], x[2])))
                else:
                    ps.append("0b" + "".join(map(str, x[1])))
            o.append("    %s %s[%d] = %s;" % ("signed" if sg else "unsigned", a, w, ", ".join(ps)))
        o += ["};", ""]
    o.append("instruction group G[%d] : %s {" % (P["w"], P["root"]))

    def con(c, j):
        l, op, r = c
        if not isinstance(r, str):
            r = ("%d", "0x%x", "0b{:b}", "%d")[j % 4]
            v = c[2]
            r = "0b{:b}".format(v) if "{" in r else r % v
        return "%s %s %s" % (l, op, r)
    for I in P["insts"]:
        o.append("  %s : %s : %s;" % (I["n"], I["fmt"], ", ".join(
            con(c, j) for j, c in enumerate(I["cons"]))))
    for I in P["insts"]:
        for (a, cs) in I["specs"]:
            o.append("  %s : specializes %s : %s;" % (a, I["n"], ", ".join(
                con(c, j + 1) for j, c in enumerate(cs))))
    o += ["};", ""]
    return "\n".join(o)


# ---------------------------------------------------------------- random descriptions
POOL = ["xa", "xb", "xc", "xd", "xe", "xf"]


def partition(rng, w, k):
    cuts = sorted(rng.sample(range(1, w), min(k, w) - 1)) if w > 1 and k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [w])]


def rand_overlay(rng, F, name, dup=False):
    fs = [f for f in F["fields"] if f[3] == 1 and f[0] not in F.get("sub", {})]
    used, parts, w = set(), [], 0
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.25:
            bits = [rng.randint(0, 1) for _ in range(rng.randint(1, 3))]
            parts.append(("c", bits))
            w += len(bits)
            continue
        if k < 0.5 and fs:
            p = ("f", rng.choice(fs)[0])
        elif k < 0.8 and fs:
            f = rng.choice(fs)
            hi = rng.randrange(f[1])
            p = ("fr", f[0], hi, rng.randint(0, hi))
        else:
            hi = rng.randrange(F["w"])
            p = ("r", hi, rng.randint(max(0, hi - 12), hi))
        pos = positions(dict(F, ovls=[("t", 0, False, [p])]), "t")
        if not dup and used & set(pos):
            continue
        if w + len(pos) > 64:
            continue
        used |= set(pos)
        parts.append(p)
        w += len(pos)
    if not used:
        return None
    return (name, w, rng.random() < 0.4, parts)


def rand_formats(rng, W, nf, common, povl=0.6, signs=0.3):
    """common: a field name laid out alike in all formats (or None)."""
    cw = rng.randint(2, min(5, W - 3)) if common else 0
    top = rng.random() < 0.5
    fmts = {}
    names = ["Base", "Fa", "Fb", "Fc"][:nf]
    for j, n in enumerate(names):
        base = "" if j == 0 else ("Base" if j == 1 or rng.random() < 0.7 else names[j - 1])
        rest = partition(rng, W - cw, rng.randint(1, 4))
        nm = POOL[:]
        if rng.random() < 0.5:
            rng.shuffle(nm)
        fields = [(nm[i], w, rng.random() < signs, 1) for i, w in enumerate(rest)]
        if common:
            c = (common, cw, False, 1)
            fields = [c] + fields if top else fields + [c]
        F = dict(w=W, base=base, fields=fields, ovls=[])
        for on in ("ya", "yb", "yc"):
            if rng.random() < povl:
                o = rand_overlay(rng, F, on)
                if o:
                    F["ovls"].append(o)
        fmts[n] = F
    return fmts, cw


def usable(F):
    return [f[0] for f in F["fields"] if f[3] == 1 and f[1] < 64 and f[0] not in F.get("sub", {})] + \
           [o[0] for o in F["ovls"] if o[1] < 64]


def width(F, n):
    return len(positions(F, n))


def signed(F, n):
    return next(x[2] for x in F["fields"] + F["ovls"] if x[0] == n)


def rand_con(rng, F, eq=0.5, ff=0.1):
    n = rng.choice(usable(F))
    w = width(F, n)
    sg = signed(F, n)
    if rng.random() < ff:
        m = [x for x in usable(F) if x != n and not signed(F, x)]
        if m and not sg:
            return (n, rng.choice(["!=", "<", "<=", ">", ">="]), rng.choice(m))
    vw = w - 1 if sg else w
    v = rng.choice([0, (1 << vw) - 1, rng.randrange(1 << vw), rng.randrange(1 << vw)]) if vw else 0
    # an equality on an overlay has to agree with its constant bits to be satisfiable
    if rng.random() < 0.8:
        v = near(rng, F, n, F["w"])
        if sg and v >> vw:
            v = v & ((1 << vw) - 1) if rng.random() < 0.5 else 0
    op = "==" if rng.random() < eq else rng.choice(["!="] if sg else ["!=", "<", "<=", ">", ">="])
    return (n, op, v)


def base_inst(n, fmt, cons):
    return dict(n=n, fmt=fmt, cons=cons, specs=[])


def varying(P):
    """Number of bits in which encodings may differ: the generator's tables are exponential
    in it, so descriptions of wide words keep it low."""
    ev = []
    for I in P["insts"]:
        F = P["fmts"][I["fmt"]]
        m = v = 0
        for (l, op, r) in I["cons"]:
            if op == "==" and not isinstance(r, str):
                m = insert(F, l, (1 << width(F, l)) - 1, m)
                v = insert(F, l, r, v)
        ev.append((m, v))
    d = 0
    for i, (m, v) in enumerate(ev):
        for (m2, v2) in ev[:i]:
            d |= (v ^ v2) & m & m2
    return bin(d).count("1")


def contradictory(F, cons):
    """Equalities that disagree on a bit: no word satisfies them."""
    m = v = 0
    for (l, op, r) in cons:
        if op != "==" or isinstance(r, str):
            continue
        lm = insert(F, l, (1 << width(F, l)) - 1, 0)
        lv = insert(F, l, r, 0)
        if insert(F, l, r, lv) != lv or (m & lm & (v ^ lv)) or raw(F, l, lv) != r:
            return True
        m |= lm
        v |= lv
    return False


def few_bits(fn):
    def g(rng, W, **kw):
        for _ in range(2000):
            try:
                P = fn(rng, W, **kw)
            except IndexError:   # nothing to constrain
                continue
            if any(contradictory(P["fmts"][I["fmt"]], I["cons"]) for I in P["insts"]):
                continue
            if W <= 12 or varying(P) <= 10:
                return P
        raise CheckError("no description with few varying bits")
    return g


def near(rng, F, n, W):
    """A value for n; on a wide field one of a few values that differ in three bits."""
    if W <= 12 or width(F, n) <= 3:
        return raw(F, n, rng.randrange(1 << W))
    import random
    r = random.Random(repr((F["fields"], n)))
    v = raw(F, n, r.randrange(1 << W))
    free = [k for k, p in enumerate(reversed(positions(F, n))) if p >= 0]
    for k in r.sample(free, min(3, len(free))):
        if rng.random() < 0.5:
            v ^= 1 << k
    return v


@few_bits
def prog_tree(rng, W, spec=0.0, other=0.0, ovl=0.3):
    """Opcode field plus, below it, further discriminating constraints."""
    fmts, cw = rand_formats(rng, W, rng.randint(1, 4), "op", povl=0.3 + ovl)
    insts = []
    ops = rng.sample(range(1 << cw), rng.randint(1, min(1 << cw, 7)))
    names = iter("i%s%s" % (a, b) for a in "abcdefgh" for b in "abcdefgh")
    for v in ops:
        fm = rng.choice(sorted(fmts))
        F = fmts[fm]
        kind = rng.random()
        subs = [x for x in usable(F) if x != "op" and not signed(F, x)]
        subs = [x for x in subs if not set(positions(F, x)) & set(positions(F, "op"))]
        if kind < 0.35 or not subs:
            insts.append(base_inst(next(names), fm, [("op", "==", v)]))
        elif kind < 0.35 + other:
            n = rng.choice(subs)
            w = width(F, n)
            k = rng.randrange(1, 1 << w) if w else 0
            pair = rng.choice([("<", ">="), ("==", "!=")])
            insts.append(base_inst(next(names), fm, [("op", "==", v), (n, pair[0], k)]))
            insts.append(base_inst(next(names), fm, [(n, pair[1], k), ("op", "==", v)]))
        else:
            n = rng.choice(subs)
            w = width(F, n)
            vals = sorted({near(rng, F, n, W) for _ in range(rng.randint(1, 6))})
            second = [x for x in subs if x != n and not set(positions(F, x)) & set(positions(F, n))]
            for x in vals:
                cons = [("op", "==", v), (n, "==", x)]
                if second and rng.random() < 0.5:
                    m = rng.choice(second)
                    y = near(rng, F, m, W)
                    insts.append(base_inst(next(names), fm, cons + [(m, "==", y)]))
                    if rng.random() < 0.5:
                        insts.append(base_inst(next(names), fm, cons + [(m, "!=", y)]))
                    else:
                        y2 = near(rng, F, m, W)
                        if y2 != y:
                            insts.append(base_inst(next(names), fm, cons + [(m, "==", y2)]))
                else:
                    insts.append(base_inst(next(names), fm, cons))
    add_specs(rng, fmts, insts, spec)
    rng.shuffle(insts)
    return finish(W, fmts, insts[:14])


def add_specs(rng, fmts, insts, spec):
    """Specialisations, mostly with values some word of their instruction has."""
    for I in insts:
        if rng.random() >= spec:
            continue
        F = fmts[I["fmt"]]
        for k in range(rng.randint(1, 2)):
            w = rng.randrange(1 << F["w"])
            for _ in range(40):
                for (l, op, r) in I["cons"]:
                    if op == "==" and not isinstance(r, str):
                        w = insert(F, l, r, w)
                if sat(F, I["cons"], w):
                    break
                w = rng.randrange(1 << F["w"])
            cs = []
            for _ in range(rng.randint(1, 2)):
                c = rand_con(rng, F, eq=0.8, ff=0)
                v = raw(F, c[0], w)
                if c[1] == "==" and rng.random() < 0.9 and not (
                        signed(F, c[0]) and v >> (width(F, c[0]) - 1)):
                    c = (c[0], "==", v)
                cs.append(c)
            I["specs"].append((I["n"] + "s%s" % "ab"[k], cs))


@few_bits
def prog_random(rng, W, spec=0.1):
    fmts, _ = rand_formats(rng, W, rng.randint(1, 3), rng.choice([None, "op"]))
    insts = []
    for j in range(rng.randint(1, 7)):
        fm = rng.choice(sorted(fmts))
        cons, seen = [], set()
        for _ in range(rng.randint(1, 3)):
            c = rand_con(rng, fmts[fm], eq=0.65)
            if c[0] in seen:
                continue
            seen.add(c[0])
            cons.append(c)
        insts.append(base_inst("i%s" % "abcdefgh"[j], fm, cons))
    add_specs(rng, fmts, insts, spec)
    return finish(W, fmts, insts)


def prog_single(rng, W):
    """Few instructions, whose constraints have no bits in common."""
    fmts, _ = rand_formats(rng, W, 1, None, povl=0.2, signs=0)
    F = fmts["Base"]
    insts = []
    fs = [f for f in F["fields"]]
    for j, f in enumerate(fs[:3]):
        insts.append(base_inst("i%s" % "abc"[j], "Base", [(f[0], "==", rng.randrange(1 << f[1]))]))
    return finish(W, fmts, insts)


def prog_formats(rng, W):
    """For extractors: several formats with many overlays, sub-formats and clashes."""
    fmts, _ = rand_formats(rng, W, rng.randint(2, 4), "op", povl=0.95, signs=0.5)
    if rng.random() < 0.7:
        sw = rng.randint(1, max(1, W // 4))
        rep = rng.randint(1, 3)
        left = W - sw * rep
        if left >= 3:
            sub = dict(w=sw, base="", fields=[("sa", sw, False, 1)], ovls=[])
            fmts["Sub"] = sub
            pre = rng.randint(1, left - 2)
            F = dict(w=W, base="Base", ovls=[], sub={"za": "Sub"}, fields=[
                ("xa", pre, rng.random() < 0.5, 1), ("za", sw, False, rep),
                ("xb", left - pre, rng.random() < 0.5, 1)])
            o = rand_overlay(rng, F, "ya")
            if o:
                F["ovls"].append(o)
            fmts["Fs"] = F
    op = next(f for f in fmts["Base"]["fields"] if f[0] == "op")
    insts = [base_inst("i%s" % "abcd"[j], fm, [("op", "==", j)])
             for j, fm in enumerate(sorted(k for k in fmts if k not in ("Sub", "Fs"))[:4])]
    if "Fs" in fmts:
        insts.append(base_inst("ie", "Fs", [("xa", "==", 1)]))
    return finish(W, fmts, insts)


def finish(W, fmts, insts):
    used = {"Base"}   # the generator leaves formats out that no instruction uses
    for I in insts:
        f = I["fmt"]
        while f:
            used.add(f)
            used.update(fmts[f].get("sub", {}).values())
            f = fmts[f]["base"]
    P = dict(w=W, root="Base", fmts={k: v for k, v in fmts.items() if k in used}, insts=insts)
    P["amb"] = ambiguous(P)
    return P


def broken(rng, W):
    """A description with one mistake that must be refused."""
    import copy
    for _ in range(50):
        P = copy.deepcopy(prog_tree(rng, W, spec=0.3, other=0.3, ovl=0.6))
        F = P["fmts"][rng.choice(sorted(P["fmts"]))]
        k = rng.randrange(8)
        I = rng.choice(P["insts"])
        IF = P["fmts"][I["fmt"]]
        if k == 0:    # widths do not add up
            a, w, sg, rep = F["fields"][-1]
            F["fields"][-1] = (a, w + 1, sg, rep)
        elif k == 1:  # overlay narrower or wider than its parts
            if not F["ovls"]:
                continue
            a, w, sg, parts = F["ovls"][0]
            F["ovls"][0] = (a, w + rng.choice([1, -1]) if w > 1 else w + 1, sg, parts)
        elif k == 2:  # value too large for its field
            c = rng.randrange(len(I["cons"]))
            l, op, r = I["cons"][c]
            if isinstance(r, str):
                continue
            I["cons"][c] = (l, op, 1 << width(IF, l))
        elif k == 3:  # unknown field
            I["cons"].append(("nope", "==", 0))
        elif k == 4:  # duplicate field
            if len(F["fields"]) < 2:
                continue
            a, w, sg, rep = F["fields"][1]
            F["fields"][1] = (F["fields"][0][0], w, sg, rep)
        elif k == 5:  # ordering on a signed field
            sg = [x for x in usable(IF) if signed(IF, x)]
            if not sg:
                continue
            I["cons"].append((rng.choice(sg), rng.choice(["<", "<=", ">", ">="]), 0))
        elif k == 6:  # overlay beyond its format or field
            F["ovls"].append(("yz", 2, False, [rng.choice([
                ("r", W, W - 1), ("fr", F["fields"][0][0], F["fields"][0][1], F["fields"][0][1] - 1)])]))
        else:         # positive value in the sign bit of a signed field
            sg = [x for x in usable(IF) if signed(IF, x)]
            if not sg:
                continue
            n = rng.choice(sg)
            I["cons"].append((n, "==", 1 << (width(IF, n) - 1)))
        P["amb"] = False
        P["broken"] = k
        return P
    raise CheckError("no broken description found")


# ---------------------------------------------------------------- building
SRCS = ("bin_decoder bin_encoding_info bin_format_visitor decoder_error_listener encoding_group "
        "extract format format_name instruction_encoding instruction_group overlay").split()


def build_generator(work, san=False):
    """The repository's generator, compiled against the stand-in for the ANTLR runtime."""
    gen = os.path.join(work, "gen")
    os.makedirs(gen, exist_ok=True)
    miniantlr.generate_all(REPO, gen, ["BinFormat"])
    abslcompat.generate(gen)
    abslcompat.overlay(REPO, gen, ["mpact/sim/decoder"])
    flags = ["-std=c++17", "-O0", "-g1", "-include", "cstdint", "-Wno-everything", "-I" + gen,
             "-I" + VERIF + "/shim/include", "-I" + VERIF + "/shim/antlr", "-I" + REPO]
    if san:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function"]
    d = os.path.join(gen, "mpact/sim/decoder")
    srcs = [os.path.join(d, s + ".cc") for s in SRCS if os.path.exists(os.path.join(d, s + ".cc"))]
    srcs.append(VERIF + "/harness/bingen.cc")

    def one(s):
        o = os.path.join(work, "g_" + os.path.basename(s) + ".o")
        r = subprocess.run([CXX] + flags + ["-c", s, "-o", o], capture_output=True, text=True)
        return s, o, r
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, srcs))
    for s, o, r in res:
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-3000:]))
    exe = os.path.join(work, "bingen")
    objs = [o for _, o, _ in res]
    link = [CXX] + (["-fsanitize=address,undefined"] if san else []) + objs + ["-o", exe] + \
        absl_libs() + ["-lpthread", "-lpcre2-8"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        # code may have moved to another file of the directory
        more = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc") and
                not f.endswith("_main.cc") and os.path.join(d, f) not in srcs]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            good = [o for _, o, x in ex.map(one, more) if x.returncode == 0]
        arch = os.path.join(work, "rest.a")
        subprocess.run(["ar", "rcs", arch] + good)
        i = link.index("-o")
        r = subprocess.run(link[:i] + [arch] + link[i:], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking the generator failed:\n" + r.stderr[-3000:])
    return exe, gen


def cap(n):
    return n[0].upper() + n[1:]


def driver(P, k):
    """C++ that makes the generated code of description k reachable by name."""
    W = P["w"]
    ut = "uint%d_t" % next(x for x in (8, 16, 32, 64) if x >= W)
    ops = ["none"] + [I["n"] for I in P["insts"]] + [a for I in P["insts"] for a, _ in I["specs"]]
    names = sorted({x[0] for F in P["fmts"].values() for x in F["fields"] + F["ovls"]})
    o = ['#include "instword.h"', '#include "p%d_bin_decoder.cc"' % k,
         '#include "p%d_bin_encoder.cc"' % k]
    o.append("namespace vd%d {" % k)
    for f in P["fmts"]:
        o.append("}\nnamespace vp%d::encoding::%s {}\nnamespace vd%d {" % (k, snake(f), k))
        for n in names:
            rep = max([x[3] for F in P["fmts"].values() for x in F["fields"] if x[0] == n] or [1])
            ft = "uint%d_t" % next(x for x in (8, 16, 32, 64) if x >= P["fmts"][f]["w"])
            o.append("namespace e_%s_%s {" % (f, n))
            o.append("using namespace vp%d::encoding::%s;" % (k, snake(f)))
            o.append("static bool Ext(uint64_t w, int x, uint64_t* r) {")
            if rep > 1:
                o.append("  return vw::Put(Extract%s(static_cast<%s>(w), x), r); }" % (cap(n), ft))
            else:
                o.append("  return vw::Put(Extract%s(static_cast<%s>(w)), r); }" % (cap(n), ft))
            # inserter
            a = "v, static_cast<T>(w)"
            if rep > 1:
                a = "x, " + a
            o.append("template <class E, class T> auto I(int, uint64_t w, int x, uint64_t v, uint64_t* r)"
                     " -> decltype(E::%s::Insert%s(%s), true) {"
                     " *r = E::%s::Insert%s(%s); return true; }" % (f, cap(n), a, f, cap(n), a))
            o.append("template <class E, class T> bool I(long, uint64_t, int, uint64_t, uint64_t*)"
                     " { return false; }")
            o.append("static bool Ins(uint64_t w, int x, uint64_t v, uint64_t* r) {"
                     " return I<vp%d::encoding::Encoder, %s>(0, w, x, v, r); }\n}" % (k, ft))
    o.append("static void Dec(uint64_t w, std::string* op, std::string* fmt) {")
    o.append("  using namespace vp%d::encoding;" % k)
    o.append("  auto r = DecodeGWithFormat(static_cast<%s>(w));" % ut)
    o.append("  if (DecodeG(static_cast<%s>(w)) != r.first) { *op = \"differs\"; return; }" % ut)
    o.append("  switch (r.first) {")
    for n in ops:
        o.append('    case OpcodeEnum::k%s: *op = "%s"; break;' % (cap(n), n))
    o.append("  }\n  switch (r.second) {")
    o.append('    case FormatEnum::kNone: *fmt = "none"; break;')
    for f in P["fmts"]:
        if f == "Sub":
            continue
        o.append('    case FormatEnum::k%s: *fmt = "%s"; break;' % (f, f))
    o.append("  }\n}")
    o.append("static bool Enc(const std::string& n, uint64_t* w, int* width) {")
    o.append("  using namespace vp%d::encoding;" % k)
    for I in P["insts"]:
        o.append('  if (n == "%s") { auto it = kOpcodeEncodings->find(OpcodeEnum::k%s); if (it == '
                 "kOpcodeEncodings->end()) return false; *w = std::get<0>(it->second); *width = "
                 "std::get<1>(it->second); return true; }" % (I["n"], cap(I["n"])))
    o.append("  return false;\n}")
    o.append("static int reg = [] { auto& p = vw::Progs()[%d]; p.dec = Dec; p.enc = Enc;" % (k + 1))
    for f in P["fmts"]:
        for n in names:
            o.append('  p.ext["%s.%s"] = e_%s_%s::Ext; p.ins["%s.%s"] = e_%s_%s::Ins;' % (
                f, n, f, n, f, n, f, n))
    o.append("  return 0; }();\n}")
    return "\n".join(o)


def snake(n):
    return n.lower()


def build_decoders(c, work, exe, gen, progs, san=True):
    """Generates and compiles the decoders. Returns the binary and, per description, how
    the generator ended."""
    out = os.path.join(work, "dec")
    os.makedirs(out, exist_ok=True)
    lines = []
    for k, P in enumerate(progs):
        open(os.path.join(out, "p%d.bin_fmt" % k), "w").write(text(P, k))
        ops = ["none"] + [I["n"] for I in P["insts"]] + [a for I in P["insts"] for a, _ in I["specs"]]
        open(os.path.join(out, "p%d_enums.h" % k), "w").write(
            "#ifndef P%d_E\n#define P%d_E\nnamespace vp%d { namespace encoding {\n"
            "enum class OpcodeEnum { %s };\n} }\n#endif\n" % (
                k, k, k, ", ".join("k" + cap(n) for n in ops)))
        lines.append("%s/p%d.bin_fmt %s p%d" % (out, k, out, k))
    chunks = [lines[i::NPROC] for i in range(NPROC)]

    def run(ch):
        res = []
        todo = list(ch)
        while todo:
            try:
                r = subprocess.run([exe], input="\n".join(todo) + "\n", capture_output=True,
                                   text=True, env=vlib.HARNESS_ENV, timeout=200)
                got, rc = [l for l in r.stdout.split("\n") if l in ("ok", "rejected")], r.returncode
                err = r.stderr
            except subprocess.TimeoutExpired:
                got, rc, err = [], -999, "timeout"
            res += [(g, "") for g in got]
            todo = todo[len(got):]
            if todo and rc != 0:
                res.append(("crash", err[-3000:]))
                todo = todo[1:]
            elif todo:
                raise CheckError("the generator driver stopped early: " + err[-2000:])
        return res
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(run, chunks))
    status = [None] * len(progs)
    for i, r in enumerate(res):
        for j, (st, err) in enumerate(r):
            status[i + j * NPROC] = (st, err)
    for k, (st, err) in enumerate(status):
        if st == "crash":
            c.fail("generator", "the generator crashed on description %d" % k,
                   dict(bin_fmt=text(progs[k], k), stderr=err))
    flags = ["-std=c++17", "-O0", "-g1", "-include", "cstdint", "-Wno-everything", "-I" + out,
             "-I" + gen, "-I" + VERIF + "/shim/include", "-I" + VERIF + "/harness", "-I" + REPO]
    if san:
        flags += ["-fsanitize=undefined", "-fno-sanitize=vptr,function",
                  "-fno-sanitize-recover=undefined"]
    ok = [k for k, (st, _) in enumerate(status) if st == "ok"]
    for k in ok:
        open(os.path.join(out, "d%d.cc" % k), "w").write(driver(progs[k], k))
    # several descriptions to a translation unit; if one fails, each on its own
    groups = [ok[i::2 * NPROC] for i in range(2 * NPROC)]
    groups = [g for g in groups if g]

    def comp(name, ks):
        src = os.path.join(out, name + ".cc")
        open(src, "w").write("".join('#include "d%d.cc"\n' % k for k in ks))
        o = src + ".o"
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", o], capture_output=True, text=True)
        return o, r

    def grp(i):
        o, r = comp("g%d" % i, groups[i])
        if r.returncode == 0:
            return [o], []
        objs, bad = [], []
        for k in groups[i]:
            o, r = comp("s%d" % k, [k])
            if r.returncode == 0:
                objs.append(o)
            else:
                bad.append((k, r.stderr[:3000]))
        return objs, bad
    objs, bad = [], []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for a, b in ex.map(grp, range(len(groups))):
            objs += a
            bad += b
    for k, err in sorted(bad):
        status[k] = ("uncompilable", err)
    o = os.path.join(out, "main.o")
    r = subprocess.run([CXX] + flags + ["-c", VERIF + "/harness/instword.cc", "-o", o],
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("compiling the decoder driver failed:\n" + r.stderr[-2000:])
    binary = os.path.join(work, "instword")
    r = subprocess.run([CXX] + (["-fsanitize=undefined"] if san else []) + objs + [o, "-o", binary] +
                       absl_libs() + ["-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking the decoders failed:\n" + r.stderr[-2000:])
    with open(binary + ".status", "w") as f:
        f.write("".join(st + "\n" for st, _ in status))
    return binary, status


if __name__ == "__main__":
    import random
    P = prog_tree(random.Random(int(sys.argv[1])), int(sys.argv[2]), 0.3, 0.3)
    print(text(P, 0))
    print(tla_prog(P))
