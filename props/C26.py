"""Profilers: memory use and instruction counts (MemProfile.tla, InstProfile.tla)."""
from vlib import *

M = "mpact/sim/util/memory/"
SEG = 128 * 1024
BASES = [0, 0x100000000 - 2 * SEG, 2 ** 64 - 4 * SEG]
SPAN = 4 * SEG


def offsets(r, hot):
    x = r.random()
    if x < 0.6:
        return hot + r.randint(0, 80)
    if x < 0.85:
        return r.choice([1, 2, 3]) * SEG + r.randint(-12, 12)
    if x < 0.95:
        return r.choice([r.randint(0, 16), SPAN - r.randint(1, 40)])
    return r.randint(0, SPAN - 1)


def scripts(c, n, ln, big):
    r = c.rng
    out = []
    for i in range(n):
        tg, fw = r.choice([0, 0, 1]), r.choice([0, 1, 1])
        sc = [["reset", tg, fw]]
        if r.random() < 0.9:
            sc.append(["on", 1])
        hot = r.choice([0, 4, SEG - 40, 2 * SEG - 20, SPAN - 100, r.randint(0, SPAN - 200)])
        filled = 0
        aligned = r.random() < 0.3
        for _ in range(ln):
            x = r.random()
            w = r.choice([1, 2, 3])
            z = r.choice([1, 1, 2, 4, 4, 8, 8, 3, 5, 6, 7, 16, 9])
            o = offsets(r, hot)
            if aligned:
                z = r.choice([1, 2, 4, 8])
                o -= o % z
            o = min(o, SPAN - z)
            if x < 0.55:
                sc.append(["acc", r.randint(0, 4 if tg else 1), w, o, z])
            elif x < 0.7:
                m = [r.choice([0, 1, 1]) for _ in range(r.choice([1, 2, 3, 5, 9]))]
                z = r.choice([1, 2, 4, 8])
                o = min(o - o % z, SPAN - z * len(m))
                sc.append(["unit", r.randint(0, 1), w, o, z, m])
            elif x < 0.8:
                m = [r.choice([0, 1, 1]) for _ in range(r.choice([2, 3, 5]))]
                z = r.choice([1, 2, 4, 8])
                a = [[r.choice([w, w, w, 1, 2, 3]), min(q - q % z, SPAN - z)] for q in (offsets(r, hot) for _ in m)]
                sc.append(["gather", r.randint(0, 1), a, z, m])
            elif x < 0.88:
                k = r.choice([1, 7, 8, 9, 31, 33, 64, 70])
                if filled < big and r.random() < 0.5:
                    filled += 1
                    o, k = r.choice([(0, SEG // 4), (SEG, SEG // 4), (SEG - 16, SEG // 4 + 8), (3 * SEG, SEG // 4), (3 * SEG - 4, 2)])
                o = min(o - o % 4, SPAN - 4 * k)
                sc.append(["fill", w, o, k])
            elif x < 0.91:
                sc.append(["on", r.choice([0, 1, 1])])
            else:
                sc.append(["profile"])
        sc.append(["profile"])
        out.append(sc)
    return out


def layouts(c, n):
    """(granularity, base, class, attached, counter, segments in ascending order)."""
    r = c.rng
    out = [(4, 0x1000, 2, 1, 0, []), (1, 0, 2, 1, 0, [(1, 1, 0, 5)]), (2, 0x80000000, 1, 0, 1, [(1, 1, 0, 1), (1, 0, 4, 9), (1, 1, 5000, 3)])]
    while len(out) < n:
        gran = r.choice([1, 2, 4, 4, 8, 16])
        cls = r.choice([1, 2])
        base = r.choice([0, gran, 0x1000, 0x400000, 0x80000000] + ([0xffffffff80000000, 2 ** 63] if cls == 2 else []))
        segs, at = [], r.choice([0, 0, 3])
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            ln = r.choice([0, 1, 2, 7, 30, 4096])
            segs.append((r.choice([1, 1, 1, 0]), r.choice([1, 1, 1, 0]), at, ln))
            at += ln + r.choice([0, 0, 1, 9, 4094, 4095, 4096, 4097, 9000])
        out.append((gran, base, cls, r.choice([0, 1, 1]), r.choice([0, 1]), segs))
    return out


def iscripts(c, lays, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        k = r.randrange(len(lays))
        gran, base, cls, att, cnt, segs = lays[k]
        text = [s for s in segs if s[0] and s[1] and s[3]]
        edges = [e + d for s in segs for e in (s[2], s[2] + s[3]) for d in (-1, 0, 1)] + [0, 1, 20000]

        def clear(v):
            if v < 0:
                return False
            if any(s[2] <= v < s[2] + s[3] for s in text):
                return True
            return not any(a[2] + a[3] <= v < b[2] and b[2] - (a[2] + a[3]) < 4096 for a in text for b in text)
        vs = [v for v in edges if clear(v)]
        ins = [v for s in text for v in (s[2], s[2] + s[3] - 1, s[2] + s[3] // 2)] or vs
        sc = [["reset", k + 1]]
        when = r.randint(0, ln // 2)
        for i in range(ln):
            if not att and i == when:
                sc.append(["attach"])
            x = r.random()
            if x < 0.6:
                sc.append(["pc", r.choice(ins), r.choice([0, 0, 1, gran - 1])])
            elif x < 0.85:
                sc.append(["pc", r.choice(vs), r.choice([0, 0, 1, gran - 1])])
            elif x < 0.9:
                sc.append(["ones"])
            else:
                sc.append(["profile"])
        out.append(sc + [["profile"]])
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("mprof", "mem_profile_h.cc", [M + "memory_use_profiler.cc", M + "memory_watcher.cc", "mpact/sim/generic/data_buffer.cc"],
                  fallback_globs=("mpact/sim/generic/*.cc", M + "*.cc"))
    bases = [str(x) for x in BASES]
    inv, act = ["Exact"], ["Monotone", "OnlyEnabled"]
    kinds = {'<<"reset", 0, 1>>', '<<"reset", 1, 1>>', '<<"reset", 0, 0>>', '<<"reset", 1, 0>>'}
    K = dict(Kinds=kinds, Windows={1, 2, 3}, Offsets={0, 4}, Sizes={4}, Masks={"<<1>>"}, Fills={1}, Span=SPAN)
    KM = dict(K, Kinds={'<<"reset", 1, 1>>'}, Windows={1, 2}, Offsets=c.pick({0, 6}, {0, 6, 8}), Sizes={1, 8}, Masks={"<<1, 0>>"}, Fills={2})
    c.tlc.model_check("MemProfile", KM, inv, act)
    KG = dict(K, Kinds={'<<"reset", 0, 1>>', '<<"reset", 1, 0>>'}, Windows={1, 3}, Offsets={0, SPAN - 16, SEG - 8}, Sizes={1, 4, 8, 16}, Masks={"<<1, 0, 1, 1>>", "<<1, 1>>"},
              Fills={4})
    c.replay("mem-all", exe, c.tlc.generate("MemProfile", KG, maxlen=4, tag="a"), bases)
    KW = dict(K, Offsets={0, 1, 4, 7, 30, SEG - 8, SEG - 2, SEG, 2 * SEG - 4, SPAN - 72}, Sizes={1, 2, 4, 8, 3, 16},
              Masks={"<<1, 0, 1, 1>>", "<<1, 1>>", "<<1>>", "<<0, 1>>"}, Fills={3, 8, 18})
    c.replay("mem-sim", exe, c.tlc.generate("MemProfile", KW, maxlen=14, tag="w", simulate=dict(num=c.pick(3, 60), depth=15)), bases)
    c.record("mem", exe, "MemProfile", K, scripts(c, c.pick(200, 1500), c.pick(60, 100), 0), inv, bases)
    c.record("mem-large", exe, "MemProfile", K, scripts(c, c.pick(16, 60), 16, 2), (), bases, tag="L", per_chunk=30)

    exe = b.build("iprof", "inst_profile_h.cc", ["mpact/sim/util/other/instruction_profiler.cc", "mpact/sim/util/program_loader/elf_program_loader.cc",
                  "mpact/sim/generic/data_buffer.cc"], fallback_globs=("mpact/sim/generic/*.cc", "mpact/sim/util/other/*.cc", M + "*.cc"))
    inv, act = ["InRange"], ["CountsOnce"]

    def args(ls):
        return [os.path.join(c.work, "prof.elf")] + [
            "%d:%d:%d:%d:%d:%s" % (g, ba, cl, at, cn, ";".join("%d,%d,%d,%d" % s for s in segs)) for g, ba, cl, at, cn, segs in ls]

    def const(ls, pcs):
        return dict(Layouts=tla_val([[l[3], [list(s) for s in l[5]]] for l in ls]), Pcs=pcs, Subs={0, 3}, Joined=4096)
    L0 = [(4, 0x1000, 2, 1, 0, [(1, 1, 0, 2), (1, 0, 2, 2), (0, 1, 4, 1), (1, 1, 4101, 1)]), (2, 0, 1, 0, 1, [(1, 1, 0, 2)]),
          (1, 0x80000000, 2, 1, 1, [(1, 1, 1, 1), (1, 1, 2, 2)])]
    KP = const(L0, {0, 1, 2, 3, 4, 4100, 4101, 4102})
    c.tlc.model_check("InstProfile", KP, inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    c.replay("inst-all", exe, c.tlc.generate("InstProfile", KP, maxlen=4, tag="i"), args(L0))
    ls = layouts(c, c.pick(40, 200))
    c.record("inst", exe, "InstProfile", const(ls, {0}), iscripts(c, ls, c.pick(250, 2000), c.pick(40, 80)), inv, args(ls))
    c.assumptions.append("granularities are powers of two and segments are multiples of them, in address order; samples between two "
                         "executable segments less than 4096 units apart are not promised either way; ELFIO is the stand-in of shim/")
