from vlib import *

M = "mpact/sim/util/memory/"
G = "mpact/sim/generic/"
LIBS = [G + "data_buffer.cc", G + "instruction.cc", G + "arch_state.cc", G + "component.cc", G + "state_item_base.cc",
        G + "program_error.cc"]


def scripts(c, cfgs, n, ln):
    r = c.rng
    out = []
    for j in range(n):
        kind, unit, og, size, fill = r.choice(cfgs)
        sc = [["reset", kind, unit, og, size, fill]]
        hi = min(size, 32 if og == 7 else 40)
        els = [e for e in (1, 2, 4, 8) if kind == "flat" or e % unit == 0]
        lens = [x for x in (1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32) if kind == "flat" or x % unit == 0]

        def addr(units):
            lim = hi - units
            if size <= 40 and r.random() < 0.15:
                return max(0, size - units)
            return r.randint(0, max(0, lim))

        def vec():
            el = r.choice(els)
            k = r.choice([1, 2, 3, 4, 5, 8])
            mask = [r.choice([0, 1, 1]) for _ in range(k)]
            eu = -(-el // unit)
            if r.random() < 0.4 and el >= unit and k * (el // unit) <= hi:
                return [addr(k * (el // unit))], mask, el
            if eu > hi:
                return None
            return [addr(eu) for _ in range(k)], mask, el
        for _ in range(ln):
            o = r.choices(["st", "ld", "vst", "vld", "adv", "clear", "far"], [6, 6, 4, 4, 3, 0.15 if kind == "demand" else 0, 0.1])[0]
            lat, k = r.choice([0, 0, 1, 2, 3, 9]), r.choice([0, 1, 2, 3, 11, 12])
            if o in ("st", "ld"):
                nb = r.choice([x for x in lens if -(-x // unit) <= hi])
                a = addr(-(-nb // unit))
                sc.append(["st", a, nb, r.randint(0, 255)] if o == "st" else ["ld", a, nb, lat, k])
            elif o in ("vst", "vld"):
                v = vec()
                if v:
                    sc.append([o, v[0], v[1], v[2]] + ([r.randint(0, 255)] if o == "vst" else [lat, k]))
            elif o == "far" and size < 1000:
                nb = r.choice(lens)
                un = -(-nb // unit)
                a = r.choice([size - un + 1, size] + ([-1] if og else []))
                if a + un > size or a < 0:
                    sc.append(["st", a, nb, 1])
                    if not (kind == "demand" and a < 0 and og == 0):
                        sc.append(["ld", a, nb, 0, 1])
            elif o in ("adv", "clear"):
                sc.append([o])
        sc += [["adv"]] * 10
        for a in range(0, hi, max(1, 8 // unit)):
            if a + max(1, 8 // unit) <= hi:
                sc.append(["ld", a, 8, 0, 0])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    b.san.append("-fno-sanitize=alignment")
    exe = b.build("flat", "flat_memory_h.cc", LIBS + [M + "flat_memory.cc", M + "flat_demand_memory.cc"],
                  fallback_globs=("mpact/sim/generic/*.cc", M + "*.cc"))
    inv, act = ["InBounds"], ["LastWritten", "LoadsPure", "NoLoss"]

    def cfg(*a):
        return '<<"reset", "%s", %d, %d, %d, %d>>' % a
    vecs = {"<<<<0>>, <<1, 0, 1>>, 1>>", "<<<<1>>, <<1, 1>>, 2>>", "<<<<2, 3, 0>>, <<1, 1, 0>>, 2>>", "<<<<0>>, <<0, 1>>, 4>>",
            "<<<<4, 0>>, <<1, 1>>, 4>>"}
    K = dict(Cfgs={cfg("flat", 1, 6, 8, 0), cfg("demand", 2, 1, 16, 5), cfg("demand", 1, 2, 8, 7), cfg("flat", 4, 0, 8, 9)},
             Addrs={0, 1, 3, 6}, Sizes={1, 2, 4}, Vecs=vecs, Vals={1, 40}, Lats={0, 1, 2}, Keys={0, 1, 12})
    c.tlc.model_check("FlatMemories", dict(K, Keys={0, 12}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(3, 4))
    KD = dict(K, Lats={0, 1}, Keys={0, 12}, Sizes={1, 2, 4}, Vals={1})
    c.replay("flat-all", exe, c.tlc.generate("FlatMemories", KD, maxlen=c.pick(4, 4), tag="a"))
    # long random behaviours of the specification, every configuration
    wide = {cfg(k, u, o, 16, f) for k in ("flat", "demand") for u in (1, 2, 4, 8) for o in (1, 4, 5) for f in (0, 255)}
    KW = dict(K, Cfgs=wide, Addrs={0, 1, 2, 5, 7, 8, 11, 12, 15}, Sizes={1, 2, 3, 4, 8, 16},
              Vecs=vecs | {"<<<<6>>, <<1, 1, 1>>, 1>>", "<<<<0>>, <<1, 0, 1>>, 8>>", "<<<<8, 2, 7>>, <<1, 1, 1>>, 8>>"})
    c.replay("flat-sim", exe, c.tlc.generate("FlatMemories", KW, maxlen=12, tag="w",
                                             simulate=dict(num=c.pick(25, 500), depth=13)))
    cfgs = [(k, u, o, z, f) for k in ("flat", "demand") for u in (1, 2, 4, 8) for o in range(0, 7) for z in (13, 24, 40) for f in (0, 165)]
    cfgs += [("demand", 1, o, 1000000000, 0) for o in range(0, 8)] * 8
    cfgs += [(k, 1, o, z, 0) for k in ("flat", "demand") for o in range(0, 7) for z in (13, 24, 40)] * 3
    c.record("flat", exe, "FlatMemories", K, scripts(c, cfgs, c.pick(120, 1200), c.pick(60, 120)), inv)
