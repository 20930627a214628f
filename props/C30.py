"""ELF program loader (ElfLoad.tla)."""
from vlib import *

NAMES = ["main", "f", "g", "data", "x.1"]


def rfile(r, small=False):
    x = r.random()
    if x < 0.08:
        return [r.choice(["missing", "bad"]), 0, [], []]
    segs, syms = [], []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        n = r.choice([0, 1, 2, 4, 7, 16] if not small else [1, 3])
        va = r.choice([0, 1, 2, 4, 8, 15, 24, 30, 31])
        pa = r.choice([0, 0, va, 4, 9, 28, 40 if n <= 4 else 1])
        segs.append([r.choice(["load"] * 6 + ["stack", "note"]), r.randint(0, 1), r.randint(0, 1), va, pa,
                     [r.randint(1, 255) for _ in range(n)], r.choice([n, n, n + 8, 0])])
        if segs[-1][0] == "stack":
            segs[-1][5], segs[-1][6] = [], r.choice([0, 16, 4096])
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        syms.append([r.choice(NAMES), r.choice("fffo"), r.randint(1, 40), r.choice([0, 1, 2, 5, 8, 20])])
    return ["ok", r.choice([0, 4, 33]), segs, syms]


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        ct, b = r.choice(["one", "two", "list", "dbg"]), r.randint(0, 1)
        sc = [["reset", ct, r.randint(1, 2), b]]
        for _ in range(ln):
            x = r.random()
            if x < 0.15:
                f = rfile(r)
                if ct == "dbg" and r.random() < 0.2 and f[2]:
                    g = r.choice(f[2])
                    if g[0] == "load":
                        g[4] = r.choice([50, 51, 55])
                sc.append([r.choice(["load", "load", "symbols"]), f])
            elif x < 0.35:
                sc.append(["sym", r.choice(NAMES)])
            elif x < 0.55:
                sc.append(["at", r.randint(1, 45)])
            elif x < 0.85:
                sc.append(["in", r.randint(1, 62)])
            elif x < 0.9:
                sc.append(["stack"])
            else:
                sc.append(["peek"])
        out.append(sc + [["peek"], ["stack"]])
    return out


def val(x):
    return '"%s"' % x if isinstance(x, str) else "<<" + ", ".join(val(y) for y in x) + ">>" if isinstance(x, list) else str(x)


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("elf_load", "elf_load_h.cc", ["mpact/sim/util/program_loader/elf_program_loader.cc", G + "data_buffer.cc"],
                  fallback_globs=(G + "*.cc",))
    act = ["Pure", "Idempotent", "Covered"]
    fs = [["ok", 4, [["load", 1, 0, 4, 0, [1, 2, 3], 3], ["load", 0, 1, 8, 12, [4, 5], 9], ["stack", 0, 0, 0, 0, [], 64]],
           [["main", "f", 4, 2], ["f", "f", 5, 4], ["data", "o", 12, 2], ["g", "f", 4, 9], ["x.1", "f", 8, 0]]],
          ["ok", 0, [["load", 0, 0, 0, 2, [6, 7, 8], 3], ["note", 1, 1, 4, 4, [9], 1], ["load", 1, 1, 4, 0, [], 8], ["load", 1, 1, 53, 0, [1, 1, 1, 1], 4]], []],
          ["missing", 0, [], []], ["bad", 0, [], []]]
    K = dict(Ctors={'"one"', '"two"', '"list"', '"dbg"'}, Files={val(f) for f in fs}, Names={'"main"', '"data"', '"f"'}, Addrs={0, 4, 6, 8, 12})
    c.tlc.model_check("ElfLoad", K, (), act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    gen = [[e[0] for e in t] for t in maximal(c.tlc.generate("ElfLoad", K, maxlen=c.pick(3, 4), tag="g"))]
    c.record("elf-all", exe, "ElfLoad", K, gen)
    c.record("elf", exe, "ElfLoad", K, scripts(c, c.pick(300, 3000), c.pick(40, 100)))
    c.assumptions.append("ELFIO is replaced by a stand-in (shim/include/elfio); ranges of functions do not wrap around the address space; "
                         "bytes of a segment beyond its contents in the file are left as they are")
