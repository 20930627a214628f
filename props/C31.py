"""SimpleAssembler: placement, labels, contents, symbols and relocations (Assembler.tla)."""
from vlib import *

NAMES = ["main", "L1", "_x", "data2", "zz"]
CHARS = [c for c in range(32, 127) if chr(c) not in ";#/,"] + [9, 10, 13, 11, 12, 7, 8, 92, 34, 39, 63]


def number(r, w, sg):
    n = 8 * w
    v = r.choice([0, 1, r.getrandbits(n), r.getrandbits(r.randint(1, n)), (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1])
    return [v >> 8 * i & 255 for i in range(w)]


def line(r, sec, bad):
    lab = r.choice(NAMES) if r.random() < 0.25 else "-"
    if sec == "none" and r.random() < 0.95:
        return ["line", "-", "sect", [r.choice(["text", "text", "data", "bss"])]]
    x = r.random()
    if x < bad:
        return ["line", lab, "bad", [r.randint(0, 17)]]
    if x < 0.12:
        return ["line", lab, "sect", [r.choice(["text", "data", "bss"])]]
    if x < 0.2:
        return ["line", lab, "none", []]
    if x < 0.28:
        return ["line", lab, "global", [r.choice(NAMES) for _ in range(r.randint(1, 3))]]
    if x < 0.36:
        return ["line", lab, "align", [1 << r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])]]
    if x < 0.44 or sec == "bss":
        return ["line", lab, "space", [r.choice([0, 1, 2, 3, 8, 17, 100])]]
    if x < 0.6:
        w, sg = r.choice([(1, 0), (2, 0), (2, 1), (4, 0), (4, 1), (8, 0), (8, 1)])
        return ["line", lab, "vals", [w, sg, [number(r, w, sg) for _ in range(r.randint(1, 4))]]]
    if x < 0.68:
        return ["line", lab, "str", [r.randint(0, 1), [[r.choice(CHARS) for _ in range(r.choice([0, 1, 3, 9]))] for _ in range(r.randint(1, 3))]]]
    if x < 0.73:
        return ["line", lab, "char", [r.choice(CHARS) for _ in range(r.randint(1, 4))]]
    op = r.choice(["nop", "nop2", "pc", "ld", "ld", "ref", "ref", "near"])
    a = [op]
    if op in ("ld", "ref", "near"):
        a.append(r.choice(NAMES))
    if op == "ref":
        a += [r.randint(1, 255), r.choice([0, 1, -4, 100])]
    return ["line", lab, "op", a]


def scripts(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset", r.randint(1, 2), r.randint(0, 2)]]
        for _ in range(r.choice([2, 3, 4])):
            sec, seen = "none", set()
            bad = r.choice([0, 0, 0, 0.05])
            for _ in range(r.choice([3, 6, 12, 25, 40])):
                l = line(r, sec, bad)
                if l[1] in seen and r.random() < 0.97:
                    l[1] = "-"
                seen.add(l[1])
                if l[2] == "sect":
                    sec = l[3][0]
                sc.append(l)
            used = {l[3][1] for l in sc if l[0] == "line" and l[2] == "op" and len(l[3]) > 1}
            if r.random() < 0.8 and used - seen:  # define what is used
                sc.append(["line", "-", "sect", [r.choice(["text", "data"])]])
                sc += [["line", u, "none", []] for u in sorted(used - seen)]
            if r.random() < 0.65:
                sc.append(["exe", r.choice([0, 4096, 8192, 65536]), r.choice([0, 0, 0, 131072, 196608]),
                           r.choice([["n", 4660], ["n", 0], ["s", r.choice(NAMES)], ["s", r.choice(sorted(seen - {"-"}) or ["main"])]])])
            else:
                sc.append(["rel"])
        out.append(sc)
    return out


def val(x):
    return '"%s"' % x if isinstance(x, str) else "<<" + ", ".join(val(y) for y in x) + ">>" if isinstance(x, list) else str(x)


def run(c):
    b = Builder(c.work)
    A = "mpact/sim/util/asm/"
    inc = ("-I" + os.path.join(VERIF, "shim", "antlr"),)
    exe = b.build("assembler", "assembler_h.cc", [A + "simple_assembler.cc", A + "resolver.cc"], proto=False, extra=inc,
                  libs=("-lpcre2-8",), fallback_globs=(A + "*.cc",))
    inv, act = ["Dense", "Inside"], ["Grows", "OneSection", "Disjoint"]
    lines = [["line", "-", "sect", ["text"]], ["line", "-", "sect", ["data"]], ["line", "main", "sect", ["bss"]],
             ["line", "L1", "vals", [2, 1, [[1, 2]]]], ["line", "-", "align", [32]], ["line", "_x", "space", [3]],
             ["line", "-", "op", ["ref", "L1", 5, 1]], ["line", "-", "op", ["near", "_x"]], ["line", "main", "none", []],
             ["line", "-", "global", ["main", "L1"]], ["line", "zz", "op", ["pc"]], ["line", "-", "bad", [0]]]
    K = dict(Lines={val(l) for l in lines}, Bases={4096}, DataStarts={0, 65536}, Entries={'<<"n", 4660>>', '<<"s", "main">>'}, MaxLines=c.pick(4, 5))
    c.tlc.model_check("Assembler", K, inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(5, 6))
    K["MaxLines"] = 4
    gen = [[e[0] for e in t] for t in maximal(c.tlc.generate("Assembler", K, maxlen=c.pick(4, 5), tag="g"))]
    c.record("asm-all", exe, "Assembler", K, gen)
    K["MaxLines"] = 1000
    c.record("asm", exe, "Assembler", K, scripts(c, c.pick(240, 2400)))
    c.assumptions.append("RE2 and ELFIO are replaced by stand-ins (shim/antlr/re2 on PCRE2, shim/include/elfio); every byte is "
                         "addressable (data_address_unit is 1); one source per assembler; instructions are those of a small instruction set")
